"""Runtime monitors for estrade: workloads, oracles and the runner deciding each property."""
