// A stand-in for MATLAB's mex.h: arrays with the semantics of the C Matrix API, in memory blocks of exactly their size.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
typedef size_t mwSize; typedef size_t mwIndex; typedef bool mxLogical; typedef char16_t mxChar;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;
struct mxArray_tag; typedef struct mxArray_tag mxArray;
extern "C" {
mxClassID mxGetClassID( mxArray const * ); char const * mxGetClassName( mxArray const * );
bool mxIsClass( mxArray const *, char const * ); bool mxIsSparse( mxArray const * ); bool mxIsComplex( mxArray const * ); bool mxIsLogicalScalarTrue( mxArray const * ); bool mxIsLogical( mxArray const * ); bool mxIsChar( mxArray const * ); bool mxIsCell( mxArray const * ); bool mxIsStruct( mxArray const * ); bool mxIsNumeric( mxArray const * ); bool mxIsDouble( mxArray const * ); bool mxIsEmpty( mxArray const * ); bool mxIsLogicalScalar( mxArray const * );
size_t mxGetNumberOfElements( mxArray const * ); mwSize mxGetNumberOfDimensions( mxArray const * ); mwSize const * mxGetDimensions( mxArray const * ); size_t mxGetM( mxArray const * ); size_t mxGetN( mxArray const * );
void * mxGetData( mxArray const * ); void * mxGetImagData( mxArray const * ); double * mxGetPr( mxArray const * ); double * mxGetPi( mxArray const * ); mxLogical * mxGetLogicals( mxArray const * ); double mxGetScalar( mxArray const * ); size_t mxGetElementSize( mxArray const * ); mxChar * mxGetChars( mxArray const * );
mxArray * mxGetCell( mxArray const *, mwIndex ); int mxGetNumberOfFields( mxArray const * ); char const * mxGetFieldNameByNumber( mxArray const *, int ); mxArray * mxGetFieldByNumber( mxArray const *, mwIndex, int );
mwIndex * mxGetIr( mxArray const * ); mwIndex * mxGetJc( mxArray const * );
char * mxArrayToString( mxArray const * ); char * mxArrayToUTF8String( mxArray const * ); int mxGetString( mxArray const *, char *, mwSize ); void mxFree( void * ); void * mxMalloc( size_t ); void mxDestroyArray( mxArray * );
mxArray * mxCreateLogicalScalar( mxLogical ); mxArray * mxCreateDoubleScalar( double ); mxArray * mxCreateString( char const * ); mxArray * mxCreateNumericArray( mwSize, mwSize const *, mxClassID, mxComplexity ); mxArray * mxCreateLogicalArray( mwSize, mwSize const * ); mxArray * mxCreateNumericMatrix( mwSize, mwSize, mxClassID, mxComplexity ); mxArray * mxCreateLogicalMatrix( mwSize, mwSize ); mxArray * mxCreateCharArray( mwSize, mwSize const * ); mxArray * mxCreateDoubleMatrix( mwSize, mwSize, mxComplexity ); mxArray * mxCreateCellMatrix( mwSize, mwSize ); mxArray * mxCreateStructMatrix( mwSize, mwSize, int, char const ** );
void mxSetCell( mxArray *, mwIndex, mxArray * ); void mxSetFieldByNumber( mxArray *, mwIndex, int, mxArray * );
int mexPrintf( char const *, ... ); int mexCallMATLAB( int, mxArray *[], int, mxArray *[], char const * ); void mexErrMsgTxt( char const * ); void mexWarnMsgTxt( char const * );
}
