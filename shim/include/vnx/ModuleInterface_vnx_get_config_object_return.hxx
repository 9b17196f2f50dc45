#pragma once
#include <vnx/shim_sys.h>
