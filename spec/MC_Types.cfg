INIT Init
NEXT Next
INVARIANTS Identity UnspecIdentity Idempotent Symmetric Assoc Absorb CastsToJoin SelfCast ThereAndBack MissStay LossyIsNamed
CHECK_DEADLOCK FALSE
