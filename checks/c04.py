import pool
def run(c):
    c.model_check("ParallelForImpl", "ParallelForImpl-wait.cfg")
    c.model_check("ParallelForImpl", "ParallelForImpl-async.cfg")
    pool.explore(c, ["rand"], ["dfs-1-2-0-2", "dfs-2-3-0-2", "dfs-1-3-1-2", "dfs-2-2-1-2", "dfs-2-3-1-1", "dfs-2-0-1-1", "dfs-2-0-0-1", "dfs-1-1-0-2"],
                 "ParallelTaskTrace", driver="task.cpp", sources=["context/task.cpp", "parallel/job_dispatcher.cpp", "parallel/job_queue.cpp"],
                 shim=True, nrandom=40000 if c.thorough else 4000, limit=60000 if c.thorough else 5000)
    c.assumptions.append("the pool runs with at least one worker and is not stopped while the task runs")
