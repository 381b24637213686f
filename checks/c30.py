from checks.c29 import run as r
def run(c):
    r(c, "trunc")
