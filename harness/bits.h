#ifndef VERIF_BITS_H
#define VERIF_BITS_H
#include <cstring>
#include <memory>
#include <functional>
#include <algorithm>
#include <map>
#include <set>
#endif
