#pragma once
#include "pinocchio/minipin.hpp"
