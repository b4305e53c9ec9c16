#pragma once
#include <cereal/cereal.hpp>
