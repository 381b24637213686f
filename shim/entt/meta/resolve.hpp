#pragma once
#include <entt/mini_meta.hpp>
