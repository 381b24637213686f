import pool
def run(c):
    c.model_check("MessageQueueImpl")
    pool.explore(c, ["rand"], ["dfs-1-2-2-1-0-0-0-3", "dfs-2-1-1-1-0-0-0-2", "dfs-2-2-1-1-1-0-0-2", "dfs-2-2-1-2-0-0-0-1", "dfs-1-2-1-2-1-1-0-2", "dfs-2-1-0-1-0-0-1-2"],
                 "MessagesTrace", driver="messages.cpp", sources=["parallel/message_dispatcher.cpp"],
                 shim=True, nrandom=30000 if c.thorough else 3000, limit=40000 if c.thorough else 3000)
    c.assumptions.append("a queue is updated by one thread at a time, its owner, and not after the queues were cleared")
