#pragma once
#include <entt/entt.hpp>
