#pragma once
#include <entt/mini.hpp>
