#include "absl/strings/str_format.h"
