#include "jlcxx.hpp"
