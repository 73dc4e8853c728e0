#include "absl/flags/flag.h"
