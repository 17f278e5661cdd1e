#pragma once
namespace securefs
{
constexpr bool is_fuse_t() { return false; }
}    // namespace securefs
