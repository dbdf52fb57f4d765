// C10: 2D grids keep every cell's value when grown, cropped or stored.
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/probability_values.h"
#include "vh.h"

namespace mapping = cartographer::mapping;

namespace {

using Cell = std::pair<int, int>;  // along x and y, see Global()

struct Value {
  double a, b;  // probability and 0, or signed distance and weight
};

struct Frame {
  double res;
  Eigen::Vector2d max0;
};

// World cell: x in max0.x - res * [gx, gx + 1], y in max0.y - res * [gy, ..].
Cell Global(const mapping::MapLimits& l, const Frame& f,
            const Eigen::Array2i& index) {
  const int sx = std::lround((l.max().x() - f.max0.x()) / f.res);
  const int sy = std::lround((l.max().y() - f.max0.y()) / f.res);
  return {index.y() - sx, index.x() - sy};
}
Eigen::Array2i Local(const mapping::MapLimits& l, const Frame& f,
                     const Cell& c) {
  const int sx = std::lround((l.max().x() - f.max0.x()) / f.res);
  const int sy = std::lround((l.max().y() - f.max0.y()) / f.res);
  return Eigen::Array2i(c.second + sy, c.first + sx);
}

void CheckIndexing(const mapping::MapLimits& l, vh::Rng& rng) {
  for (int q = 0; q < 8; ++q) {
    const Eigen::Array2i i(rng.Int(0, l.cell_limits().num_x_cells - 1),
                           rng.Int(0, l.cell_limits().num_y_cells - 1));
    const Eigen::Vector2f center = l.GetCellCenter(i);
    VH_EXPECT((l.GetCellIndex(center) == i).all() && l.Contains(i),
              "center-of-cell", "cell " << i.transpose() << " center "
                                        << center.transpose());
    // A point of the cell away from its border.
    const Eigen::Vector2f p(center.x() + l.resolution() * rng.Real(-.45, .45),
                            center.y() + l.resolution() * rng.Real(-.45, .45));
    VH_EXPECT((l.GetCellIndex(p) == i).all(), "point-of-cell",
              p.transpose() << " in cell " << i.transpose());
    const Eigen::Vector2d expected(
        l.max().x() - l.resolution() * (i.y() + 0.5),
        l.max().y() - l.resolution() * (i.x() + 0.5));
    VH_EXPECT((center.cast<double>() - expected).norm() <
                  0.02 * l.resolution(),
              "cell-center", "cell " << i.transpose());
  }
  const Eigen::Array2i outside[] = {
      {-1, 0}, {0, -1}, {l.cell_limits().num_x_cells, 0},
      {0, l.cell_limits().num_y_cells}};
  for (const auto& o : outside) {
    VH_EXPECT(!l.Contains(o), "contains-outside", o.transpose());
  }
}

template <typename GridType>
struct Traits;

template <>
struct Traits<mapping::ProbabilityGrid> {
  static constexpr double kTolA = 6e-5, kTolB = 1e-9;
  static std::unique_ptr<mapping::ProbabilityGrid> Create(
      const mapping::MapLimits& limits, double, double,
      mapping::ValueConversionTables* t) {
    return std::unique_ptr<mapping::ProbabilityGrid>(
        new mapping::ProbabilityGrid(limits, t));
  }
  static Value Read(const mapping::ProbabilityGrid& g,
                    const Eigen::Array2i& i) {
    return {g.GetProbability(i), 0.};
  }
  // Returns the value the cell has afterwards.
  static Value Write(mapping::ProbabilityGrid* g, const Eigen::Array2i& i,
                     bool known, Value old, double, double, vh::Rng& rng) {
    if (!known && rng.Chance(0.4)) {
      const double p = rng.Real(0.1, 0.9);
      g->SetProbability(i, p);
      return {p, 0.};
    }
    static const auto up =
        mapping::ComputeLookupTableToApplyCorrespondenceCostOdds(
            mapping::Odds(0.7f));
    static const auto down =
        mapping::ComputeLookupTableToApplyCorrespondenceCostOdds(
            mapping::Odds(0.3f));
    const bool u = rng.Chance(0.5);
    const bool applied = g->ApplyLookupTable(i, u ? up : down);
    VH_EXPECT(applied, "first-update-refused", i.transpose());
    VH_EXPECT(!g->ApplyLookupTable(i, u ? down : up), "second-update",
              "a second update of a cell in one sequence was applied");
    const double odds = (u ? 0.7 / 0.3 : 0.3 / 0.7) *
                        (known ? old.a / (1. - old.a) : 1.);
    return {std::min(0.9, std::max(0.1, odds / (1. + odds))), 0.};
  }
};

template <>
struct Traits<mapping::TSDF2D> {
  static constexpr double kTolA = 6e-5, kTolB = 6e-5;
  static std::unique_ptr<mapping::TSDF2D> Create(
      const mapping::MapLimits& limits, double truncation, double max_weight,
      mapping::ValueConversionTables* t) {
    return std::unique_ptr<mapping::TSDF2D>(
        new mapping::TSDF2D(limits, truncation, max_weight, t));
  }
  static Value Read(const mapping::TSDF2D& g, const Eigen::Array2i& i) {
    const auto both = g.GetTSDAndWeight(i);
    VH_EXPECT(both.first == g.GetTSD(i) && both.second == g.GetWeight(i),
              "tsd-and-weight", i.transpose());
    return {both.first, both.second};
  }
  static Value Write(mapping::TSDF2D* g, const Eigen::Array2i& i, bool, Value,
                     double truncation, double max_weight, vh::Rng& rng) {
    const double d = truncation * rng.Real(-1.3, 1.3);
    const double w = max_weight * rng.Real(0., 1.3);
    g->SetCell(i, d, w);
    VH_EXPECT(g->CellIsUpdated(i), "not-updated", i.transpose());
    g->SetCell(i, -d, 0.5 * w);  // ignored until the update is finished
    return {std::min(truncation, std::max(-truncation, d)),
            std::min(max_weight, w)};
  }
};

template <typename GridType>
void RunHistory(vh::Rng& rng) {
  using T = Traits<GridType>;
  static mapping::ValueConversionTables tables;
  Frame f;
  f.res = rng.Chance(0.4) ? 0.05 : rng.Real(0.01, 2.);
  const double offset = f.res * (rng.Chance(0.3) ? 3000. : 20.);
  f.max0 = Eigen::Vector2d(rng.Real(-offset, offset),
                           rng.Real(-offset, offset));
  // Few distinct values: each makes a conversion table.
  static constexpr double kTruncations[] = {0.1, 0.3, 1., 4.7};
  static constexpr double kWeights[] = {0.5, 10., 50.};
  const double truncation = kTruncations[rng.Int(0, 3)],
               max_weight = kWeights[rng.Int(0, 2)];
  auto grid = T::Create(
      mapping::MapLimits(f.res, f.max0,
                         mapping::CellLimits(rng.Int(1, 12), rng.Int(1, 12))),
      truncation, max_weight, &tables);
  std::map<Cell, Value> model;
  const double tol_a = T::kTolA * (std::is_same<GridType, mapping::TSDF2D>()
                                       ? 2.5 * truncation
                                       : 1.);
  const double tol_b = T::kTolB * std::max(1., max_weight);
  std::map<Cell, Value> stored;  // what the grid returned last
  auto same_limits = [&](const mapping::MapLimits& a,
                         const mapping::MapLimits& b) {
    return a.resolution() == b.resolution() && a.max() == b.max() &&
           a.cell_limits().num_x_cells == b.cell_limits().num_x_cells &&
           a.cell_limits().num_y_cells == b.cell_limits().num_y_cells;
  };
  auto check = [&](const GridType& g, const char* what, bool exact) {
    std::map<Cell, Value> now;
    const auto& l = g.limits();
    const Cell base = Global(l, f, Eigen::Array2i(0, 0));
    Eigen::Array2i i;
    for (i.x() = 0; i.x() < l.cell_limits().num_x_cells; ++i.x()) {
      for (i.y() = 0; i.y() < l.cell_limits().num_y_cells; ++i.y()) {
        if (!g.IsKnown(i)) continue;
        now[{base.first + i.y(), base.second + i.x()}] = T::Read(g, i);
      }
    }
    VH_EXPECT(now.size() == model.size(), "known-cells",
              what << ": " << now.size() << " known cells, expected "
                   << model.size());
    for (const auto& e : now) {
      const auto m = model.find(e.first);
      VH_EXPECT(m != model.end(), "unexpected-known-cell", what);
      VH_EXPECT(std::abs(m->second.a - e.second.a) <= tol_a &&
                    std::abs(m->second.b - e.second.b) <= tol_b,
                "cell-value",
                what << ": cell " << e.first.first << "," << e.first.second
                     << " has " << e.second.a << "/" << e.second.b
                     << ", expected " << m->second.a << "/" << m->second.b);
      if (exact) {
        const auto s = stored.find(e.first);
        VH_EXPECT(s != stored.end() && s->second.a == e.second.a &&
                      s->second.b == e.second.b,
                  "cell-changed",
                  what << ": cell " << e.first.first << "," << e.first.second
                       << " changed although it was not updated");
      }
    }
    stored = now;
    // The cropped region is the bounding box of the known cells.
    Eigen::Array2i off;
    mapping::CellLimits crop;
    g.ComputeCroppedLimits(&off, &crop);
    if (model.empty()) {
      VH_EXPECT(crop.num_x_cells == 1 && crop.num_y_cells == 1, "empty-crop",
                what);
    } else {
      Eigen::Array2i lo(1 << 30, 1 << 30), hi(-(1 << 30), -(1 << 30));
      for (const auto& m : model) {
        const Eigen::Array2i i = Local(l, f, m.first);
        lo = lo.min(i);
        hi = hi.max(i);
      }
      VH_EXPECT((off == lo).all() &&
                    crop.num_x_cells == hi.x() - lo.x() + 1 &&
                    crop.num_y_cells == hi.y() - lo.y() + 1,
                "crop-limits", what << ": offset " << off.transpose()
                                    << " expected " << lo.transpose());
    }
    CheckIndexing(l, rng);
  };
  check(*grid, "new", false);
  const int steps = rng.Int(1, 14);
  int grown = 0, cropped = 0, stored_count = 0;
  uint64_t writes = 0;
  for (int step = 0; step < steps; ++step) {
    const int op = rng.Int(0, 9);
    const auto limits = grid->limits();
    const int nx = limits.cell_limits().num_x_cells,
              ny = limits.cell_limits().num_y_cells;
    if (op < 4) {
      const int n = rng.Int(1, 15);
      std::set<Cell> done;
      for (int k = 0; k < n; ++k) {
        const Eigen::Array2i i(
            rng.Chance(0.3) ? (rng.Chance(0.5) ? 0 : nx - 1)
                            : rng.Int(0, nx - 1),
            rng.Chance(0.3) ? (rng.Chance(0.5) ? 0 : ny - 1)
                            : rng.Int(0, ny - 1));
        const Cell c = Global(limits, f, i);
        if (!done.insert(c).second) continue;
        const bool known = model.count(c) != 0;
        VH_EXPECT(grid->IsKnown(i) == known, "is-known", i.transpose());
        model[c] = T::Write(grid.get(), i, known,
                            known ? stored.at(c) : Value{0., 0.}, truncation,
                            max_weight, rng);
        ++writes;
      }
      grid->FinishUpdate();
      check(*grid, "update", false);
    } else if (op < 7) {
      // Somewhere within, or beyond any side.
      const int reach = (nx + ny) * (rng.Chance(0.3) ? 2 : 1);
      if (static_cast<int64_t>(nx) * ny > 3000) continue;
      const Eigen::Vector2f p(
          limits.max().x() -
              f.res * (rng.Int(-reach, ny + reach) + rng.Real(0.1, 0.9)),
          limits.max().y() -
              f.res * (rng.Int(-reach, nx + reach) + rng.Real(0.1, 0.9)));
      grid->GrowLimits(p);
      VH_EXPECT(grid->limits().Contains(grid->limits().GetCellIndex(p)),
                "grown-does-not-contain", p.transpose());
      const bool same = same_limits(grid->limits(), limits);
      VH_EXPECT(same == limits.Contains(limits.GetCellIndex(p)),
                "grew-without-need", p.transpose());
      // The old area is part of the new one.
      for (const auto& corner :
           {Eigen::Array2i(0, 0), Eigen::Array2i(nx - 1, 0),
            Eigen::Array2i(0, ny - 1), Eigen::Array2i(nx - 1, ny - 1)}) {
        VH_EXPECT(grid->limits().Contains(
                      Local(grid->limits(), f, Global(limits, f, corner))),
                  "area-lost", "growing removed cells");
      }
      grown += !same;
      check(*grid, "grow", true);
    } else if (op == 7) {
      std::unique_ptr<mapping::Grid2D> c = grid->ComputeCroppedGrid();
      check(*grid, "source of crop", true);
      GridType* typed = dynamic_cast<GridType*>(c.get());
      VH_EXPECT(typed != nullptr && c->GetGridType() == grid->GetGridType(),
                "crop-type", "cropping changed the grid type");
      Eigen::Array2i off;
      mapping::CellLimits crop;
      grid->ComputeCroppedLimits(&off, &crop);
      VH_EXPECT(typed->limits().cell_limits().num_x_cells ==
                        crop.num_x_cells &&
                    typed->limits().cell_limits().num_y_cells ==
                        crop.num_y_cells,
                "crop-size", crop.num_x_cells);
      check(*typed, "crop", false);
      c.release();
      grid.reset(typed);
      ++cropped;
    } else {
      const mapping::proto::Grid2D message = grid->ToProto();
      mapping::proto::Grid2D parsed;
      VH_EXPECT(parsed.ParseFromString(message.SerializeAsString()),
                "stored-form", "cannot be parsed");
      std::unique_ptr<GridType> copy(new GridType(parsed, &tables));
      VH_EXPECT(same_limits(copy->limits(), grid->limits()), "stored-limits",
                "limits changed by storing");
      VH_EXPECT(copy->GetMinCorrespondenceCost() ==
                        grid->GetMinCorrespondenceCost() &&
                    copy->GetMaxCorrespondenceCost() ==
                        grid->GetMaxCorrespondenceCost(),
                "stored-cost-range", "cost range changed by storing");
      check(*copy, "reload", true);
      VH_EXPECT(copy->ToProto().SerializeAsString() ==
                    message.SerializeAsString(),
                "stored-again", "storing a reloaded grid differs");
      grid = std::move(copy);
      ++stored_count;
    }
    // Outside cells are unknown with the largest cost.
    const Eigen::Array2i out(-1, rng.Int(-3, 3));
    VH_EXPECT(!grid->IsKnown(out) && grid->GetCorrespondenceCost(out) ==
                                         grid->GetMaxCorrespondenceCost(),
              "outside-cell", out.transpose());
  }
  vh::Count("grown", grown);
  vh::Count("cropped", cropped);
  vh::Count("stored", stored_count);
  vh::Count("cells_written", writes);
  if (grown > 0 && writes > 0) {
    vh::Distinct(vh::Digest().AddD(f.res).Add(writes).Add(grown).Add(
        model.size()).Get());
  }
  vh::Sample(VH_STR(steps << " steps: grown " << grown << ", cropped "
                          << cropped << ", stored " << stored_count << ", "
                          << model.size() << " known cells"));
}

}  // namespace

VH_SCENARIO(probability, 1600, 40000) {
  RunHistory<mapping::ProbabilityGrid>(rng);
}
VH_SCENARIO(tsdf, 1600, 40000) { RunHistory<mapping::TSDF2D>(rng); }

int main(int argc, char** argv) { return vh::Main(argc, argv); }
