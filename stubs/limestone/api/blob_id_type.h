#pragma once
#include "storage_id_type.h"
