import pool
def run(c):
    c.model_check("CountdownImpl")
    pool.explore(c, ["rand"], ["dfs-1-1-0-0-4", "dfs-2-2-0-0-3", "dfs-3-2-1-0-2", "dfs-2-1-1-1-3", "dfs-3-0-0-0-2", "dfs-2-0-0-0-3"], "CountdownTrace",
                 driver="countdown.cpp", sources=[])
