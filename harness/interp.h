// oracle: linear interpolation of a table sorted by x, constant outside
#pragma once
#include <vector>
#include <utility>
typedef std::vector<std::pair<double, double>> Tab;
static double lin(const Tab &t, double x) {
  if (x <= t[0].first) return t[0].second;
  for (size_t i = 1; i < t.size(); i++) if (x <= t[i].first) return t[i - 1].second + (t[i].second - t[i - 1].second) / (t[i].first - t[i - 1].first) * (x - t[i - 1].first);
  return t.back().second;
}
