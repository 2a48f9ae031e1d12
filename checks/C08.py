import checks.C07
def body(c): checks.C07.body(c, True)
