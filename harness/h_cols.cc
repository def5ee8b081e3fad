// C14: the column partitioner, run as a program on a mesh file whose cells lie anywhere.
#include "common.hh"
int cols_main(int argc, char *argv[]);
extern "C" int sx_main() {
  int n = P("cells", 3), nx = P("nx", 0) ? P("nx", 0) : 1 + sx_choose(P("maxx", 3), "columns"), ny = P("ny", 0) ? P("ny", 0) : 1 + sx_choose(P("maxy", 3), "rows"); sxmpi_init();
  SerialMesh s; s.c_numCells = n; s.c_numFaces = 4 * n; s.c_numNodes = 4 * n; s.c_cellData.resize(n); s.c_faceData.resize(4 * n); s.c_nodeData.resize(4 * n);
  std::vector<double> X(n), Y(n); static const double B[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; int free = P("freeaxis", 3);
  for (int c = 0; c < n; c++) { int q = (c + 1) % n; // node numbers are not those of the cell
    double x = free & 1 ? sx_real_in("x", -100, 100) : (double)(c * 37 % 11), y = free & 2 ? sx_real_in("y", -100, 100) : (double)(c * 23 % 7), z = -5.0 * c; double k = 1 + c; if (P("ties", 0)) { if (free & 1) { if (c == 1) x = X[0] - k / 4 - 0.0; } }
    s.c_cellData[c].materialIndex = 1 + c % 2; double sum[2] = {0, 0};
    for (int v = 0; v < 4; v++) { s.c_cellData[c].boundingNodes[v] = 4 * q + v; s.c_cellData[c].boundingFaces[v] = 4 * q + v; double *p = s.c_nodeData[4 * q + v].coords; p[0] = x + k * B[v][0]; p[1] = y + k * B[v][1]; p[2] = z + B[v][2]; sum[0] += p[0]; sum[1] += p[1];
      SerialMesh::FaceData &f = s.c_faceData[4 * q + v]; f.boundingCells[0] = c; f.boundingCells[1] = NONE; int t = 0; for (int w = 0; w < 4; w++) if (w != v) f.boundingNodes[t++] = 4 * q + w; }
    X[c] = sum[0] / 4; Y[c] = sum[1] / 4; }
  s.write("in.smesh"); std::string a = std::to_string(nx), b = std::to_string(ny); char p0[] = "PartitionColumns.x", p3[] = "in.smesh", p4[] = "out.pmesh"; char *av[] = {p0, &a[0], &b[0], p3, p4, 0};
  sx_assert(cols_main(5, av) == 0, "the program reports an error"); SxFile *f = sx_fs_find("out.pmesh", false); sx_assert(f != 0, "no mesh was written");
  ParallelMesh q; q.read("out.pmesh"); sx_assert(q.c_numPartitions == (U)(nx * ny), "number of partitions"); std::vector<U> part(n, NONE), cnt(nx * ny), col(nx);
  for (int r = 0; r < nx * ny; r++) for (auto &d : q.c_partitionData[r].cellData) { sx_assert(d.globalID < (U)n, "a cell that does not exist"); sx_assert(part[d.globalID] == NONE, "a cell is in two partitions"); part[d.globalID] = r; cnt[r]++; col[r / ny]++; }
  for (int c = 0; c < n; c++) sx_assert(part[c] != NONE, "a cell is in no partition");
  for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) sx_assert(col[i] <= col[j] + 1, "the numbers of cells of two columns differ by more than one");
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < ny; k++) sx_assert(cnt[i * ny + j] <= cnt[i * ny + k] + 1, "the numbers of cells of two partitions of a column differ by more than one");
  for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) { U a = part[c], b = part[d]; if (a / ny < b / ny) { sx_assert(X[c] <= X[d] + 1e-9, "a cell of an earlier column lies at larger x"); sx_reach("columns"); } if (a / ny == b / ny && a < b) { sx_assert(Y[c] <= Y[d] + 1e-9, "a cell of an earlier partition of a column lies at larger y"); sx_reach("rows"); } }
  sx_reach("done"); return 0;
}
