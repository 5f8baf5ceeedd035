CONSTANT Shallow = {"np"}
INIT Init
NEXT Next
INVARIANTS Served MonitorAccepts MonitorTracks Sound Emit
CHECK_DEADLOCK FALSE
