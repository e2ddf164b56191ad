// run-time selection of a type
#include "common.h"
#include <array>
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Utilities/TypeList.h"
#include "BlasBooster/Utilities/TypeChecker.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Core/DynamicMatrixTypeList.h"
extern "C" {
bool vc_pred(int dim, int i);
long vc_act(int i);
long vc_act2(int i, int j);
}
namespace dispatch {
template <int I> struct Tag { static const int no = I; };
struct Pred { int dim; template <class T> bool operator()(T*) const { return vc_pred(dim, T::no); } };
struct Act { typedef long result_type; template <class T> long operator()(T*) const { return vc_act(T::no); } };
struct ActV { typedef void result_type; template <class T> void operator()(T*) const { vc_act(T::no); } };
struct Act2 { typedef long result_type; template <class T, class U> long operator()(T*, U*) const { return vc_act2(T::no, U::no); } };
struct ActV2 { typedef void result_type; template <class T, class U> void operator()(T*, U*) const { vc_act2(T::no, U::no); } };
typedef TypeList<Tag<0>> L1;
typedef TypeList<Tag<0>, Tag<1>> L2;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>> L3;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>> L4;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>> L5;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>> L6;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>> L7;
typedef TypeList<Tag<0>, Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>, Tag<7>> L8;
// the listed matrix types, by their declared order
struct Nr {
    static int of(Matrix<Zero>*) { return 0; }
    static int of(Matrix<Sparse, float>*) { return 1; }
    static int of(Matrix<Dense, float>*) { return 2; }
    static int of(Matrix<Sparse, double>*) { return 3; }
    static int of(MultipleMatrix<Matrix<Sparse, double>, Matrix<Sparse, float>>*) { return 4; }
    static int of(MultipleMatrix<Matrix<Sparse, double>, Matrix<Dense, float>>*) { return 5; }
    static int of(Matrix<Dense, double>*) { return 6; }
};
struct ActM { typedef long result_type; template <class T> long operator()(T* p) const { return vc_act(Nr::of(p)); } };
struct ActM2 { typedef long result_type; template <class T, class U> long operator()(T* p, U* q) const { return vc_act2(Nr::of(p), Nr::of(q)); } };
}
using namespace dispatch;
#define LISTS(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8)
#define ONE(n) ENTRY vc_disp_##n() { vc_int(exec_if<L##n>(Pred{0}, Act())); } \
               ENTRY vc_dispv_##n() { exec_if<L##n>(Pred{0}, ActV()); vc_point(1); }
LISTS(ONE)
#define TWO(n) ENTRY vc_disp2_##n() { vc_int(exec_if_2dim<L##n>(Pred{0}, Pred{1}, Act2())); } \
               ENTRY vc_dispv2_##n() { exec_if_2dim<L##n>(Pred{0}, Pred{1}, ActV2()); vc_point(1); }
TWO(1) TWO(2) TWO(3) TWO(4) TWO(5) TWO(6) TWO(7)
ENTRY vc_disp_matrix(size_t i) { vc_int(exec_if<DynamicMatrixTypeList>(TypeChecker(i), ActM())); }
ENTRY vc_disp2_matrix(size_t i, size_t j) { vc_int(exec_if_2dim<DynamicMatrixTypeList>(TypeChecker(i), TypeChecker(j), ActM2())); }
ENTRY vc_disp_index() { vc_int(GetSize<DynamicMatrixTypeList>::value); vc_int(GetSize<TypeList<>>::value); vc_int(GetSize<L8>::value);
#define IX(i) vc_int(GetIndex<Tag<i>, L8>::value); vc_int(GetType<i, L8>::type::no);
    IX(0) IX(1) IX(2) IX(3) IX(4) IX(5) IX(6) IX(7) }
ENTRY vc_disp_types() {
    vc_int(Matrix<Zero>::typeIndex_); vc_int(Matrix<Sparse, float>::typeIndex_); vc_int(Matrix<Dense, float>::typeIndex_); vc_int(Matrix<Sparse, double>::typeIndex_);
    vc_int(MultipleMatrix<Matrix<Sparse, double>, Matrix<Sparse, float>>::typeIndex_); vc_int(MultipleMatrix<Matrix<Sparse, double>, Matrix<Dense, float>>::typeIndex_); vc_int(Matrix<Dense, double>::typeIndex_);
#define GT(i) vc_int(Nr::of((GetType<i, DynamicMatrixTypeList>::type*)0));
    GT(0) GT(1) GT(2) GT(3) GT(4) GT(5) GT(6) }
