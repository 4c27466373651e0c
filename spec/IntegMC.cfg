SPECIFICATION MCSpec
INVARIANTS ExactDynamics ExactCost ExactHessian Order Symplectic Held ExactGroup
CHECK_DEADLOCK FALSE
