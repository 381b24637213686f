import pool
def run(c):
    c.model_check("WorkerPool", "WorkerPoolRun.cfg")
    if c.thorough:
        c.model_check("WorkerPool", "WorkerPoolRunDeep.cfg")
    pool.explore(c, ["pool", "worker"], ["pool-1-1-2-0-0-2", "pool-2-1-1-0-0-2", "pool-2-2-1-0-0-1", "pool-1-1-1-3-0-2"], "JobPoolTrace")
    pool.explore(c, ["queue"], ["queue-1-2-1-0-0-2", "queue-2-1-1-1-0-2", "queue-1-2-2-0-1-1", "queue-2-1-2-0-0-2"], "JobQueueTrace")
    c.assumptions.append("sequentially consistent interleavings at synchronisation operations; weaker memory orders only through the data-race check")
