#pragma once
#include "fake_s3.h"
