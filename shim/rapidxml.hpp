#pragma once
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
