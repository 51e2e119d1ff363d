#include "crypt_blowfish.h"
