#pragma once
namespace libremidi
{
enum class API
{
  UNSPECIFIED,
  DUMMY
};
constexpr API default_platform_api() { return API::DUMMY; }
}
