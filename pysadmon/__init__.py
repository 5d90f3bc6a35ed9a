"""Runtime monitors for selimfirat/pysad: workloads, online monitors and reference oracles."""
