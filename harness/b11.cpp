// B11: Normalize leaves the set {x : A x <= b} unchanged, normalises the rows it counts and reports infeasible zero rows.
#include "rows.h"
void harness_main() {
  int rows = sym::choice("rows", 6); bool many = rows == 5; if (many) rows = 7; int cols = rows <= 2 ? 1 + sym::choice("cols", 3) : 3;
  MatrixXX A = MatrixXX::Zero(rows, cols); VectorX b = VectorX::Zero(rows); std::vector<int> kind(rows); bool bad = false; int nz = 0;
  for (int i = 0; i < rows; i++) {
    kind[i] = many && i > 2 ? kind[i == 6 ? 1 : i - 3] : sym::choice(I("kind", i).c_str(), 4);   // zero row with negative / non-negative right-hand side, full row, row with a single coefficient
    if (kind[i] == 0) { b(i) = sym::var(I("b", i), -5.0, -1e-3); bad = true; }
    else if (kind[i] == 1) { b(i) = (many ? i % 2 : sym::choice(I("zero", i).c_str(), 2)) ? sym::var(I("b", i), 0.0, 5.0) : 0.0; }
    else {
      nz++; b(i) = sym::var(I("b", i), -5.0, 5.0);
      if (kind[i] == 2) for (int j = 0; j < cols; j++) { double s = (i + j) % 2 ? 1.0 : -1.0; A(i, j) = s * sym::var("A" + std::to_string(i) + std::to_string(j), 0.25, 3.0); }
      else A(i, i % cols) = (i % 2 ? 1.0 : -1.0) * sym::var(I("A", i), 0.25, 3.0);
    }
  }
  sym::Rows before = to_rows(A, b); MatrixXX A0 = A; VectorX b0 = b;
  int r = Normalize(A, b); string n = "rows";
  sym::check("reports infeasibility exactly when a row without variable is violated", (r < 0) == bad);
  if (r < 0) sym::check("infeasibility is reported as -1", r == -1);
  sym::check("size unchanged", A.rows() == rows && A.cols() == cols && b.size() == rows);
  if (!bad) {
    sym::check("counts the rows with variables", r == nz);
    for (int i = 0; i < rows; i++) {
      double s = 0; for (int j = 0; j < cols; j++) s = s + A(i, j) * A(i, j);
      if (i < nz) sym::check_eq("counted rows have unit norm", s, 1.0); else { sym::check_eq("other rows have no variable", s, 0.0); sym::check_le("other rows hold", 0.0, b(i), 0.0); }
    }
    sym::check_halfspaces("feasible set", cols, to_rows(A, b), before);
  } else {
    bool found = false; for (int i = 0; i < rows && !found; i++) { bool z = true; for (int j = 0; j < cols; j++) if (!sym::is_zero(A(i, j))) z = false; if (z && b(i) < 0) found = true; }
    sym::check("the violated row is still there", found);
  }
  sym::reach(I("rows", rows)); sym::reach(bad ? "infeasible" : nz == rows ? "no_zero_row" : nz == 0 ? "only_zero_rows" : "some_zero_rows");
}
