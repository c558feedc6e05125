// One generator family for one element type: -DFAM_<x> -DTYPE=<T>
#if defined(FAM_flux_apply)
#include "fam_flux_apply.hpp"
#elif defined(FAM_stencil)
#include "fam_stencil.hpp"
#elif defined(FAM_bc)
#include "fam_bc.hpp"
#elif defined(FAM_fort)
#include "fam_fort.hpp"
#endif
namespace vf
{
#if defined(FAM_flux_apply)
void reg_flux_apply(Registry<TYPE>& R)
{
    regFluxApply<TYPE>(R, true, sizeof(TYPE) == 8 && HAVE_FORTRAN);
}
#elif defined(FAM_stencil)
void reg_stencil(Registry<TYPE>& R) { regStencil<TYPE>(R, true, sizeof(TYPE) == 8 && HAVE_FORTRAN); }
#elif defined(FAM_bc)
void reg_bc(Registry<TYPE>& R)
{
    regBC<TYPE>(R);
    regC2F<TYPE>(R);
}
#elif defined(FAM_fort)
void reg_fort(Registry<TYPE>& R) { regFort<TYPE>(R); }
#endif
} // namespace vf
