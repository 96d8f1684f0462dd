#include "streams.hpp"
