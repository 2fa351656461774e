#include "../../pegtl.hpp"
