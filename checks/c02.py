import pool
def run(c):
    c.model_check("WorkerPool", "WorkerPoolStop.cfg")
    if c.thorough:
        c.model_check("WorkerPool", "WorkerPoolStopDeep.cfg")
    pool.explore(c, ["stop"], ["pool-1-0-1-2-2-2", "pool-2-0-1-2-1-2", "pool-1-0-2-1-1-2", "pool-2-0-2-1-0-2", "pool-2-1-1-4-0-1", "pool-3-0-1-2-0-2"], "JobPoolTrace")
    c.assumptions.append("submissions do not overlap with stop (the pool is not documented to allow that); jobs still pending at stop may be discarded")
