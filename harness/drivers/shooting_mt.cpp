// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting
// FLAGS: -fopenmp -DCROCODDYL_WITH_MULTITHREADING -DCROCODDYL_WITH_NTHREADS=4
// The same interpreter with parallel evaluation.
#include "shooting.cpp"
