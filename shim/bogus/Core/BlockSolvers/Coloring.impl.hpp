#include "Core/Block.impl.hpp"
