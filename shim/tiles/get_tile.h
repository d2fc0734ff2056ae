#pragma once
#include <cstddef>
namespace lmdb {
struct env {};
}  // namespace lmdb
namespace tiles {
constexpr std::size_t const kDefaultSize = 1;
struct tile_db_handle {
  explicit tile_db_handle(lmdb::env&) {}
};
struct render_ctx {};
struct pack_handle {
  explicit pack_handle(char const*) {}
};
inline lmdb::env make_tile_database(char const*, std::size_t) { return {}; }
inline render_ctx make_render_ctx(tile_db_handle&) { return {}; }
}  // namespace tiles
