// Minimal stand-in for motis-project/guess: which names match a query is up
// to the harness.
#pragma once
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace guess {
struct guesser {
  struct match {
    std::size_t index;
    float cos_sim;
  };
  explicit guesser(std::vector<std::pair<std::string, float>> const& c) : candidates_(c) {}
  std::vector<match> guess_match(std::string_view const query, unsigned const = 10) {
    asked_ = query;
    return matches_;
  }
  std::vector<std::pair<std::string, float>> candidates_;
  std::vector<match> matches_;
  std::string asked_;
};
}  // namespace guess
