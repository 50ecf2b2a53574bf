// Declarations-only stand-in for libROM (not available offline): used to PARSE and, for
// replay, to compile the parts of scaleupROM that name libROM types.  Nothing here is verified.
#ifndef VP_LIBROM_STUB
#define VP_LIBROM_STUB
#include <vector>
#include <string>
#include <memory>
#include <cstring>
#include <mpi.h>
#include "mfem.hpp"
namespace CAROM {
class Vector {
   std::vector<double> d; bool dist;
public:
   Vector() : dist(false) {}
   Vector(int n, bool dist_) : d(n, 0.0), dist(dist_) {}
   Vector(double *p, int n, bool dist_, bool copy = true) : d(p, p + n), dist(dist_) {}
   int dim() const { return (int) d.size(); }
   double *getData() const { return const_cast<double *>(d.data()); }
   const double &item(int i) const { return d[i]; }
   double &item(int i) { return d[i]; }
   double &operator()(int i) { return d[i]; }
   const double &operator()(int i) const { return d[i]; }
   bool distributed() const { return dist; }
   void setSize(int n) { d.resize(n); }
   double norm() const;
   double norm2() const;
   void gather();
   Vector &operator=(double a) { for (auto &x : d) x = a; return *this; }
   Vector &operator-=(const Vector &);
   Vector &operator+=(const Vector &);
};
class Matrix {
   std::vector<double> d; int r, c; bool dist;
public:
   Matrix() : r(0), c(0), dist(false) {}
   Matrix(int r_, int c_, bool dist_, bool rand = false) : d((size_t) r_ * c_, 0.0), r(r_), c(c_), dist(dist_) {}
   Matrix(double *p, int r_, int c_, bool dist_, bool copy = true) : d(p, p + (size_t) r_ * c_), r(r_), c(c_), dist(dist_) {}
   int numRows() const { return r; }
   int numColumns() const { return c; }
   int numDistributedRows() const { return r; }
   const double &item(int i, int j) const { return d[(size_t) i * c + j]; }
   double &item(int i, int j) { return d[(size_t) i * c + j]; }
   double &operator()(int i, int j) { return item(i, j); }
   const double &operator()(int i, int j) const { return item(i, j); }
   double *getData() const { return const_cast<double *>(d.data()); }
   bool distributed() const { return dist; }
   void setSize(int r_, int c_) { r = r_; c = c_; d.resize((size_t) r * c); }
   Vector *getColumn(int k) const;
   void getColumn(int k, Vector &v) const;
   std::shared_ptr<Matrix> getFirstNColumns(int n) const;
   void transposeMult(const Matrix &o, Matrix &res) const;
   void transposeMult(const Vector &o, Vector &res) const;
   void mult(const Vector &o, Vector &res) const;
   void distribute(const int &n);
   void gather();
   Matrix &operator=(double a) { for (auto &x : d) x = a; return *this; }
   void print(const char *) const;
   void write(const std::string &) const;
};
struct Database { enum class formats { HDF5, HDF5_MPIO }; };
class HDFDatabase : public Database {
public:
   bool create(const std::string &file_name, const MPI_Comm comm = MPI_COMM_NULL);
   bool open(const std::string &file_name, const std::string &type, const MPI_Comm comm = MPI_COMM_NULL);
   bool close();
   void putInteger(const std::string &key, int v);
   void putIntegerArray(const std::string &key, const int *v, int n, bool dist = false);
   void putDoubleArray(const std::string &key, const double *v, int n, bool dist = false);
   void getInteger(const std::string &key, int &v);
   int getIntegerArraySize(const std::string &key);
   int getDoubleArraySize(const std::string &key);
   void getIntegerArray(const std::string &key, int *v, int n, bool dist = false);
   void getDoubleArray(const std::string &key, double *v, int n, bool dist = false);
};
struct Options {
   Options(int d, int n, int iv = 1, bool u = false, bool w = false) {}
   bool static_svd_preserve_snapshot = false;
   Options &setSingularValueTol(double);
   Options &setMaxBasisDimension(int);
};
class BasisGenerator {
public:
   BasisGenerator(const Options &, bool incremental, const std::string &basename = "", Database::formats f = Database::formats::HDF5);
   bool takeSample(double *u, bool add_without_increase = false);
   int getNumSamples() const;
   void writeSnapshot();
   void endSamples(const std::string &kind = "basis");
   void loadSamples(const std::string &, const std::string &kind = "basis", int cut_off = (int)1e9, Database::formats f = Database::formats::HDF5);
   std::shared_ptr<const Matrix> getSnapshotMatrix();
   std::shared_ptr<const Vector> getSingularValues();
   std::shared_ptr<const Matrix> getSpatialBasis();
};
class BasisReader {
public:
   BasisReader(const std::string &, Database::formats f = Database::formats::HDF5, const int dim = -1);
   int getDim(const std::string &);
   int getNumSamples(const std::string &);
   std::unique_ptr<Matrix> getSpatialBasis();
   std::unique_ptr<Matrix> getSpatialBasis(int n);
   std::unique_ptr<Matrix> getSnapshotMatrix();
   std::unique_ptr<Vector> getSingularValues();
};
enum class NNLS_termination { LINF, L2 };
class NNLSSolver {
public:
   NNLSSolver(double const_tol = 1.0e-14, int min_nnz = 0, int max_nnz = 0, int verbosity = 0,
              double res_change_termination_tol = 1.0e-4, double zero_tol = 1.0e-14,
              int n_outer = 100000, int n_inner = 100000, const NNLS_termination criterion = NNLS_termination::LINF);
   ~NNLSSolver();
   void solve_parallel_with_scalapack(const Matrix &mat_trans, const Vector &lb, const Vector &ub, Vector &soln);
   void normalize_constraints(Matrix &mat_trans, Vector &lb, Vector &ub);
   int getNumProcs() const;
   void set_verbosity(const int);
};
int split_dimension(const int dim, const MPI_Comm &comm = MPI_COMM_WORLD);
int get_global_offsets(const int local_dim, std::vector<int> &offsets, const MPI_Comm &comm = MPI_COMM_WORLD);
bool is_same(int x, const MPI_Comm &comm = MPI_COMM_WORLD);
}
// this MFEM is built without MUMPS; the class is declared only so that the solvers parse
#ifndef MFEM_USE_MUMPS
namespace mfem {
class MUMPSSolver : public Solver {
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_INDEFINITE = 1, SYMMETRIC_POSITIVE_DEFINITE = 2 };
   MUMPSSolver() {}
   MUMPSSolver(MPI_Comm) {}
   void SetOperator(const Operator &op) override;
   void Mult(const Vector &x, Vector &y) const override;
   void MultTranspose(const Vector &x, Vector &y) const override;
   void SetPrintLevel(int);
   void SetMatrixSymType(MatType);
};
}
#endif
#endif
