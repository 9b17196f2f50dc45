#pragma once
#include <lexy/dsl.hpp>
