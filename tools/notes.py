DEFAULT_NOTE = (
    "Held on the executions that were generated (see the evidence for what was "
    "observed); trusts the reference model and the monitors in /verif/lib and observ."
)
NOT_APPLICABLE = {}
NOTES = {}
