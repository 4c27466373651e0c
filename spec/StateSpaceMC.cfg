SPECIFICATION MCSpec
INVARIANTS Reach Displace Neutral Inverse ExactFirst ExactSecond ExactTangent
CHECK_DEADLOCK FALSE
