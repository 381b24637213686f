#pragma once
#include <entt/mini.hpp>
#include <entt/mini_meta.hpp>
