// The part of MATLAB's MEX interface that the front ends use (separate-complex API), for running them without MATLAB.
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef size_t mwSize; typedef size_t mwIndex; typedef uint16_t mxChar;
enum mxClassID { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
                 mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray;
extern "C" {
size_t mxGetM(const mxArray *);
size_t mxGetN(const mxArray *);
mwSize mxGetNumberOfDimensions(const mxArray *);
const mwSize *mxGetDimensions(const mxArray *);
size_t mxGetNumberOfElements(const mxArray *);
double *mxGetPr(const mxArray *);
double *mxGetPi(const mxArray *);
void *mxGetData(const mxArray *);
double mxGetScalar(const mxArray *);
mxClassID mxGetClassID(const mxArray *);
bool mxIsChar(const mxArray *);
bool mxIsDouble(const mxArray *);
bool mxIsSingle(const mxArray *);
bool mxIsSparse(const mxArray *);
bool mxIsComplex(const mxArray *);
bool mxIsNumeric(const mxArray *);
bool mxIsLogical(const mxArray *);
bool mxIsCell(const mxArray *);
bool mxIsStruct(const mxArray *);
bool mxIsEmpty(const mxArray *);
char *mxArrayToString(const mxArray *);
int mxGetString(const mxArray *, char *, mwSize);
mxArray *mxCreateString(const char *);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray *mxCreateDoubleScalar(double);
void mxDestroyArray(mxArray *);
void *mxMalloc(size_t);
void mxFree(void *);
int mexPrintf(const char *, ...);
void mexWarnMsgTxt(const char *);
[[noreturn]] void mexErrMsgTxt(const char *);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
}
