from checks import c13
def run(c):
    c13.run(c, "query", (4000, 40000))
