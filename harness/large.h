// Larger symmetric matrices L*D*L^T with a fixed unit lower triangular L and a diagonal D of which one entry is given.
#pragma once
template <int N> static void large(double (&h)[N][N], int at, double d) {
  double l[N][N] = {}, e[N];
  for (int i = 0; i < N; ++i) {
    e[i] = i == at ? d : 1 + (i * 5) % 7;
    for (int j = 0; j < i; ++j) l[i][j] = ((i * 3 + j * 5) % 7 - 3) / 4.;
    l[i][i] = 1;
  }
  for (int i = 0; i < N; ++i)
    for (int j = i; j < N; ++j) {
      double r = 0;
      for (int k = 0; k <= i; ++k) r += l[i][k] * e[k] * l[j][k];
      h[i][j] = h[j][i] = r;
    }
}
