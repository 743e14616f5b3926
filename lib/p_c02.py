import layoutcheck


def check():
    return layoutcheck.check("C02")
