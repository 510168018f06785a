#pragma once
namespace verif {
// From here on these objects, and what they own, are only read...
template <typename... Args>
void keep(const Args&... args);
// ...until here.
void finish();
}  // namespace verif
