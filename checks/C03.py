import checks.parallel_common as pc
def body(c): pc.body(c, "C03", True)
