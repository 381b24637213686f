SPECIFICATION Spec
CONSTANTS Senders = {"s1", "s2"}
          PerSender = 2
          Updates = 2
          Echo = 1
INVARIANT Conserved
CHECK_DEADLOCK FALSE
