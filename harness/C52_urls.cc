// @sources web/server/src/soro_server.cc src/infrastructure/infrastructure.cc
// @include web/server/include
// @bounds every URL the server documents and its client asks for, with names and search texts of up to 2 arbitrary characters, numbers of up to 3 arbitrary digits and up to 3 trains; targets of up to 3 arbitrary characters behind a slash, and URLs with one part too few, too many or of other characters
// @assume the router calls the first handler of the request's method whose pattern matches the whole target, with what its groups matched (motis-project/net is not part of this repository)
// @stub motis-project/net, boost.asio and the tile renderer; the answers themselves are judged by C47, C50 and C51
// @reach list box station station_route interlocking_route exclusion_set element search timetables timetable tile file missing slash trains no_trains
#include "net/web_server/responses.h"
#include "net/web_server/serve_static.h"
#include "soro/server/soro_server.h"
#include "sym.h"

using namespace soro;
using namespace soro::server;
using request_t = net::query_router::route_request;
using answer_t = net::web_server::string_res_t;

namespace {
enum item { NAMES, BOX, STATIONS, STATION, STATION_ROUTE, INTERLOCKING_ROUTE, EXCLUSION_SET, ELEMENT, SEARCH, TIMETABLES, TIMETABLE, ORDERING, TILE, STATIC };
struct call {
  item what_;
  std::vector<std::string> params_;
};
std::vector<call> calls;
bool file_there = false;
infrastructure_module const* infras = nullptr;

answer_t served(item const what, request_t const& req) {
  calls.push_back({what, req.path_params_});
  answer_t a{static_cast<int>(what) % 2 == 0 ? boost::beast::http::status::ok : boost::beast::http::status::not_found, req.version()};
  a.body() = "answer";
  a.body() += static_cast<char>('A' + what);
  return a;
}
bool marked(infrastructure_module const& m) { return m.infrastructures_.size() == 1; }
bool marked(timetable_module const& m) { return m.contexts_.size() == 2; }
}  // namespace

namespace net {
bool serve_static_file(std::string const& dir, query_router::route_request const& req, web_server::http_res_cb_t const& cb) {
  sym_check(dir == "some/resources", "files are served from the server's resources");
  if (file_there)
    cb(served(STATIC, req));
  else
    calls.push_back({STATIC, req.path_params_});
  return file_there;
}
}  // namespace net
namespace soro::server {
answer_t infrastructure_module::serve_infrastructure_names(request_t const& r) const { return served(NAMES, r); }
answer_t infrastructure_module::serve_bounding_box(request_t const& r) const { return served(BOX, r); }
answer_t infrastructure_module::serve_station_names(request_t const& r) const { return served(STATIONS, r); }
answer_t infrastructure_module::serve_station(request_t const& r) const { return served(STATION, r); }
answer_t infrastructure_module::serve_station_route(request_t const& r) const { return served(STATION_ROUTE, r); }
answer_t infrastructure_module::serve_interlocking_route(request_t const& r) const { return served(INTERLOCKING_ROUTE, r); }
answer_t infrastructure_module::serve_exclusion_set(request_t const& r) const { return served(EXCLUSION_SET, r); }
answer_t infrastructure_module::serve_element(request_t const& r) const { return served(ELEMENT, r); }
answer_t search_module::serve_search(request_t const& r, infrastructure_module const& i) const {
  sym_check(marked(i), "the server's infrastructures are searched");
  return served(SEARCH, r);
}
answer_t timetable_module::serve_timetable_names(request_t const& r) const {
  sym_check(marked(*this), "the server's timetables are asked");
  return served(TIMETABLES, r);
}
answer_t timetable_module::serve_timetable(request_t const& r) const { return served(TIMETABLE, r); }
answer_t ordering_module::serve_ordering_graph(request_t const& r, infrastructure_module const& i, timetable_module const& t) const {
  sym_check(marked(i) && marked(t), "the ordering graph is that of the server's infrastructures and timetables");
  return served(ORDERING, r);
}
answer_t tiles_module::serve_tile(request_t const& r) { return served(TILE, r); }

infrastructure_module get_infrastructure_module(server_settings const&) {
  infrastructure_module m;
  m.infrastructures_.emplace("one", nullptr);
  return m;
}
tiles_module get_tile_module(server_settings const&, infrastructure_module const& i) {
  sym_check(marked(i), "the tiles are those of the server's infrastructures");
  return {};
}
search_module get_search_module(infrastructure_module const& i) {
  sym_check(marked(i), "the search is that of the server's infrastructures");
  return {};
}
timetable_module get_timetable_module(server_settings const&, infrastructure_module const& i) {
  sym_check(marked(i), "the timetables are those of the server's infrastructures");
  timetable_module m;
  m.contexts_.emplace("one", timetable_module::infra_context{});
  m.contexts_.emplace("two", timetable_module::infra_context{});
  return m;
}
ordering_module get_ordering_module() { return {}; }
}  // namespace soro::server

namespace {
// the answers to a request
std::vector<answer_t> ask(std::string const& method, std::string const& target) {
  std::vector<answer_t> answers;
  calls.clear();
  server_settings settings;
  settings.server_resource_dir_.val() = "some/resources";
  settings.address_.val() = "1.2.3.4";
  settings.port_.val() = "567";
  net::web_server::serve = [&](net::web_server& s) {
    sym_check(s.address_ == "1.2.3.4" && s.port_ == "567", "the server listens where it should");
    net::web_server::http_req_t req;
    req.method_ = method;
    req.target_ = target;
    s.on_request_(req, [&](net::web_server::http_res_t const& r) { answers.push_back(std::get<0>(r)); }, false);
  };
  soro_server server(settings);
  server.run(settings);
  return answers;
}
void expect(std::string const& target, item const what, std::vector<std::string> const& params) {
  file_there = sym::pick(0, 1, "a file of that name") == 1;
  auto const a = ask("GET", target);
  sym_check(a.size() == 1 && calls.size() == 1, "a request is answered once");
  sym_check(calls[0].what_ == what, "a URL is answered with what it names");
  sym_check(calls[0].params_.size() == params.size(), "the item has the names and numbers of the URL");
  for (std::size_t i = 0; i < params.size(); ++i) sym_check(calls[0].params_[i] == params[i], "the item has the names and numbers of the URL");
  bool const none = what == STATIC && !file_there;
  std::string body = "answer";
  body += static_cast<char>('A' + what);
  sym_check(a[0].body() == (none ? std::string("not found") : body), "the answer is passed on");
  sym_check(a[0].result() == (none || what % 2 == 1 ? boost::beast::http::status::not_found : boost::beast::http::status::ok), "the answer is passed on");
}
char name_char(char const* what) {
  char const c = static_cast<char>(sym::u8(what));
  auto const u = static_cast<unsigned char>(c);
  sym_assume(((u >= 'a') & (u <= 'z')) | ((u >= 'A') & (u <= 'Z')) | ((u >= '0') & (u <= '9')) | (u == '_') | (u == '-'));
  return c;
}
std::string name(char const* what) {
  std::string s;
  auto const n = sym::pick(1, 2, what);
  for (unsigned i = 0; i < n; ++i) s += name_char("character of a name");
  return s;
}
std::string number(char const* what, unsigned const most = 3) {
  std::string s;
  auto const n = sym::pick(1, most, what);
  for (unsigned i = 0; i < n; ++i) s += static_cast<char>('0' + sym::range(0, 9, "digit"));
  return s;
}
std::string slash() {
  if (sym::pick(0, 1, "slash at the end") == 0) return "";
  sym_reach("slash");
  return "/";
}
}  // namespace

HARNESS(lists) {
  auto const n = name("infrastructure");
  switch (sym::pick(0, 4, "which")) {
    case 0: expect("/infrastructures" + slash(), NAMES, {}), sym_reach("list"); break;
    case 1: expect("/infrastructure/" + n + "/bounding_box" + slash(), BOX, {n}), sym_reach("box"); break;
    case 2: expect("/infrastructure/" + n + "/stations" + slash(), STATIONS, {n}); break;
    case 3: expect("/infrastructure/" + n + "/timetables" + slash(), TIMETABLES, {n}), sym_reach("timetables"); break;
    case 4: {
      auto const t = name("timetable");
      expect("/infrastructure/" + n + "/timetable/" + t + slash(), TIMETABLE, {n, t});
      sym_reach("timetable");
    }
  }
}
HARNESS(items) {
  static char const* const path[] = {"station", "station_route", "interlocking_route", "exclusion_sets", "element"};
  static char const* const reached[] = {"station", "station_route", "interlocking_route", "exclusion_set", "element"};
  static item const what[] = {STATION, STATION_ROUTE, INTERLOCKING_ROUTE, EXCLUSION_SET, ELEMENT};
  auto const k = sym::pick(0, 4, "which");
  auto const n = name("infrastructure"), id = number("id");
  expect("/infrastructure/" + n + "/" + path[k] + "/" + id, what[k], {n, id});
  sym_reach(reached[k]);
}
HARNESS(searches) {
  auto const n = name("infrastructure"), q = name("query") + name("more of the query");
  expect("/infrastructure/" + n + "/search/" + q, SEARCH, {n, q});
  sym_reach("search");
}
HARNESS(tiles) {
  auto const n = name("infrastructure"), z = number("zoom", 2), x = number("x", 2), y = number("y", 2);
  expect("/infrastructure/" + n + "/tiles/" + z + "/" + x + "/" + y + ".mvt", TILE, {n, z, x, y});
  sym_reach("tile");
}
HARNESS(orderings) {
  auto const n = name("infrastructure"), t = name("timetable"), from = number("from", 2), to = number("to", 2);
  std::string trains;
  auto const count = sym::pick(0, 3, "trains");
  for (unsigned i = 0; i < count; ++i) trains += (i == 0 ? "" : ",") + number("train", 2);
  expect("/infrastructure/" + n + "/timetable/" + t + "/ordering?from=" + from + "&to=" + to + "&trainIds=" + trains, ORDERING, {n, t, from, to, trains});
  sym_reach(count == 0 ? "no_trains" : "trains");
}
HARNESS(others) {
  std::string t = "/";
  switch (sym::pick(0, 9, "which")) {
    case 0:
      for (auto i = sym::pick(0, 3, "length"); i > 0; --i) {
        auto const c = static_cast<char>(sym::u8("character"));
        sym_assume((c != '\n') & (c != '\r') & (c != '\0'));
        t += c;
      }
      break;
    case 1: t = "/index.html"; break;
    case 2: t = "/infrastructure/" + name("infrastructure"); break;
    case 3: t = "/infrastructure/" + name("infrastructure") + "/station/"; break;
    case 4: t = "/infrastructure/" + name("infrastructure") + "/element/" + number("id", 1) + "/" + number("id", 1); break;
    case 5: t = "/infrastructure/" + name("infrastructure") + "/station_route/" + number("id", 1) + "x"; break;
    case 6: t = "/infrastructure/" + name("infrastructure") + "." + name("infrastructure") + "/stations/"; break;
    case 7: t = "/infrastructure//bounding_box"; break;
    case 8: t = "/x/infrastructures"; break;
    case 9: t = "/infrastructure/a/timetable/b/ordering?from=1&to=x&trainIds="; break;
  }
  expect(t, STATIC, {});
  sym_reach(file_there ? "file" : "missing");
}
