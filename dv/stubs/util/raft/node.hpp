// Empty: distributed_tx.hpp includes util/raft/node.hpp but uses nothing of it, and NuRaft is not installed here.
