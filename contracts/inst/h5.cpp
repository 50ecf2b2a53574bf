// instantiates the templates of hdf5_utils.hpp that are put under contract (the bodies are those of /repo)
#include "hdf5_utils.hpp"
#define ALL(T) \
template void hdf5_utils::ReadAttribute<T>(hid_t &, std::string, T &); template void hdf5_utils::WriteAttribute<T>(hid_t &, std::string, const T &); \
template void hdf5_utils::ReadDataset<T>(hid_t &, std::string, mfem::Array<T> &); template void hdf5_utils::WriteDataset<T>(hid_t &, std::string, const mfem::Array<T> &); \
template void hdf5_utils::ReadDataset<T>(hid_t &, std::string, mfem::Array2D<T> &); template void hdf5_utils::WriteDataset<T>(hid_t &, std::string, const mfem::Array2D<T> &);
ALL(int) ALL(double) ALL(bool)
