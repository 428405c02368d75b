From 5c7b563c479129f80c6842f8c99442b6718b94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 01/59] fix: compute the number of rows of an oversampled
 sub-region from its rows

DownsampleAndReplace used the number of columns, so a non-square region was
only partly filled in, or memory outside both images was read and written.
---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From d4b560acc07c0d1928bf01c67634144750c398b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 02/59] fix: index the PSF image by row and column in Lanczos
 interpolation

The indices were transposed: the PSF was mirrored about its diagonal, and
non-square PSF images were read out of bounds.
---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..e1d3cdb 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -182,7 +182,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -272,7 +272,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 1ac9800c10c5fc2b7b3666bc8d2cfed16a352809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 03/59] fix: accept all documented interpolation methods for
 PointSourceRot

lanczos3 was refused, the capitalised spellings selected no interpolator at
all (null-pointer access), and the setting was not kept for saved parameters.
---
 function_objects/func_pointsource-rot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..3926738 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
@@ -178,8 +182,9 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
+
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From d8336e83ce649fe1f45519cb4f64c8c9586f946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 04/59] fix: reset point sources to standard sampling after
 oversampled regions

Only the interpolator was reset, so from the second model image on, point
sources outside the oversampled region were shrunk by the oversampling scale.
---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..1ce092a 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1188,8 +1188,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1277,8 +1279,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From c85da845f61bf9b23e4253215e1c14e395fed4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 05/59] fix: give each point source the interpolation method it
 asks for

One interpolator, of the type requested by the first PointSource function, was
shared by all of them, so the "method" of later ones was silently ignored.
---
 core/model_object.cpp | 39 ++++++++++++++++++++-------------------
 core/model_object.h   |  4 ++--
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1ce092a..a78dcf3 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -120,8 +120,6 @@ ModelObject::ModelObject( )
   fsetStartFlags = nullptr;
 
   localPsfPixels = nullptr;
-  psfInterpolator = nullptr;
-  psfInterpolator_allocated = false;
   
   modelVectorAllocated = false;
   maskVectorAllocated = false;
@@ -202,8 +200,8 @@ ModelObject::~ModelObject()
   if (localPsfPixels_allocated)
     free(localPsfPixels);
 
-  if (psfInterpolator_allocated)
-    delete psfInterpolator;
+  for (auto &interpolatorPair : psfInterpolators)
+    delete interpolatorPair.second;
   
   if (nFunctions > 0)
     for (int i = 0; i < nFunctions; i++)
@@ -293,14 +291,14 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
-    if (! psfInterpolator_allocated) {
-      string interpName = newFunctionObj_ptr->GetInterpolationType();
-      int interpType = interpolationMap[interpName];
+    string interpName = newFunctionObj_ptr->GetInterpolationType();
+    int interpType = interpolationMap[interpName];
+    if (psfInterpolators.count(interpType) == 0) {
       result = SetupPsfInterpolation(interpType);
       if (result < 0)
       	return -1;
     }
-    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
+    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolators[interpType]);
     pointSourcesPresent = true;
   }
   
@@ -360,22 +358,24 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
     return -2;
   }
 
+  PsfInterpolator *newInterpolator = nullptr;
   switch (interpolationType) {
     case kInterpolator_bicubic:
-      psfInterpolator = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
-	  psfInterpolator_allocated = true;
+      newInterpolator = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos2:
-      psfInterpolator = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      newInterpolator = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos3:
-//       printf("ERROR: Lanczos3 interpolation not yet implemented!\n");
-//       return -2;
-      psfInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      newInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
       break;
+    default:
+      fprintf(stderr, "** ERROR: unrecognized PSF interpolation type!\n");
+      return -3;
   }
+  if (psfInterpolators.count(interpolationType) > 0)
+    delete psfInterpolators[interpolationType];
+  psfInterpolators[interpolationType] = newInterpolator;
   
   return 0;
 }
@@ -1186,10 +1186,10 @@ void ModelObject::CreateModelImage( double params[] )
     // Re-assign psfInterpolator object (bcs. calls made to
     // OversampledRegion::ComputeRegionAndDownsample result in PointSource objects 
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
-    // objects to use the standard-resolution psfInterpolator object held by ModelObject
+    // objects to use the standard-resolution psfInterpolator objects held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
       if (funcObj->IsPointSource()) {
-        funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->AddPsfInterpolator(psfInterpolators[interpolationMap[funcObj->GetInterpolationType()]]);
         funcObj->SetOversamplingScale(1);
       }
     
@@ -1280,7 +1280,8 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
   if (functionObjects[functionIndex]->IsPointSource()) {
-    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    string interpName = functionObjects[functionIndex]->GetInterpolationType();
+    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolators[interpolationMap[interpName]]);
     functionObjects[functionIndex]->SetOversamplingScale(1);
   }
 
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..5fcacd8 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -325,8 +325,8 @@ class ModelObject
     int  imageOffset_X0, imageOffset_Y0;
     string  dataFilename;
     
-    PsfInterpolator *psfInterpolator;
-    bool  psfInterpolator_allocated;
+    // one interpolator per interpolation type requested by PointSource functions
+    map<int, PsfInterpolator *>  psfInterpolators;
     
     // stuff for ovsersampled PSF convolution
     Convolver  *psfConvolver_osamp;
-- 
2.43.0


From f4caf62f57682e0be882d81442591b60c1141b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/59] fix: apply --no-normalize to oversampled PSF images

The option is documented for standard and oversampled PSF images, but the
oversampled ones were always normalized.
---
 core/getimages.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/getimages.cpp b/core/getimages.cpp
index c5b7e71..76b5cff 100644
--- a/core/getimages.cpp
+++ b/core/getimages.cpp
@@ -192,6 +192,7 @@ int GetOversampledPsfInfo( const std::shared_ptr<OptionsBase> options, int xOffs
     psfOversampleInfo->AddPsfPixels(psfOversampledPixels, nColumns_psf_oversampled,
    									nRows_psf_oversampled, newPsfOversampledPixelsFlag);
     psfOversampleInfo->AddOversamplingScale(psfOversamplingScale);
+    psfOversampleInfo->SetNormalizationFlag(options->normalizePSF);
     psfOversamplingInfoVect.push_back(psfOversampleInfo);
   }
   
-- 
2.43.0


From 920cf340ece1e76b037b2be9c32592c3d5e6f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 07/59] fix: ignore non-finite (masked) data pixels in the
 Poisson-MLR extra terms

---
 core/model_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index a78dcf3..d8dfecc 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -700,7 +700,8 @@ void ModelObject::GenerateExtraCashTerms( )
     dataVal = effectiveGain*(dataVector[z] + originalSky);
     // the following is strictly OK only for dataVal == 0 (lim_{x -> 0} x ln(x) = 0); 
     // the case of dataVal < 0 is undefined
-    if (dataVal <= 0.0)
+    // (non-finite data pixels are masked, but 0-weight * NaN would still be NaN)
+    if ((dataVal <= 0.0) || (! isfinite(dataVal)))
       extraTerm = 0.0;
     else
       extraTerm = dataVal*log(dataVal) - dataVal;
-- 
2.43.0


From 00648990ac2c1b5513fb0746cf18c1df2e8ed7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 08/59] fix: let imfit-mcmc use the Cash statistic

---
 core/options_mcmc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/options_mcmc.h b/core/options_mcmc.h
index bfda539..cea91af 100644
--- a/core/options_mcmc.h
+++ b/core/options_mcmc.h
@@ -67,6 +67,8 @@ class MCMCOptions : public OptionsBase
 
       noParamLimits = true;
 
+      solver = NO_FITTING;   // MCMC does not use any of the minimizers
+
       appendToOutput = false;
       outputFileRoot = "mcmc_out";
       nChains = -1;          // -1 = use default, which is nChains = nFreeParams
-- 
2.43.0


From 00aa3af1782104c28710e6621c879d89f6479d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 09/59] fix: initialise the counts of global and per-image
 functions and parameters

---
 core/model_object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index d8dfecc..21f1eac 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -153,7 +153,10 @@ ModelObject::ModelObject( )
   pointSourcesPresent = false;
   
   nFunctions = 0;
+  nGlobalFunctions = 0;
   nFunctionSets = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nFunctionParams = 0;
   nParamsTot = 0;
   nOversampledRegions = 0;
-- 
2.43.0


From 9e778a5838ff3ad8df222142f7175f60f9dd4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:27 +0000
Subject: [PATCH 10/59] fix: leave bootstrap mode after bootstrap resampling

---
 core/bootstrap_errors.cpp       |  3 ++-
 core/model_object.cpp           |  9 +++++++++
 core/model_object.h             |  3 +++
 core/model_object_multimage.cpp | 11 +++++++++++
 core/model_object_multimage.h   |  2 ++
 5 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..1b4c958 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -242,7 +242,7 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   }
   printf("\n");
 
- 
+  theModel->StopBootstrap();
   free(paramsVect);
   free(paramOffsets);
 
@@ -329,6 +329,7 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  theModel->StopBootstrap();
   free(paramsVect);
   free(paramOffsets);
 
diff --git a/core/model_object.cpp b/core/model_object.cpp
index 21f1eac..d3ec661 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2096,6 +2096,15 @@ int ModelObject::MakeBootstrapSample( )
 }
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// Tells ModelObject to leave bootstrap resampling mode, so that fit statistics and 
+/// deviates are once again computed using the original data.
+void ModelObject::StopBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
 
 
 /* ---------------- PUBLIC METHOD: PrintImage ------------------------- */
diff --git a/core/model_object.h b/core/model_object.h
index 5fcacd8..95a040a 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -259,6 +259,9 @@ class ModelObject
     virtual int UseBootstrap( );
     
     virtual int MakeBootstrapSample( );
+
+    // 2D only
+    virtual void StopBootstrap( );
     
     // [x] 2D only (used in model_object_multimage.cpp)
     void GetDataImageDimensions( int *nColumns, int *nRows );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..16807f8 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -760,6 +760,17 @@ int ModelObjectMultImage::MakeBootstrapSample( )
 }
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// Tells ModelObjectMultImage object to leave bootstrap resampling mode.
+/// This (overridden) version simply calls the StopBootstrap() method on each 
+/// of the ModelObject instances in modelObjectsVect.
+void ModelObjectMultImage::StopBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->StopBootstrap();
+}
+
+
 
 
 /* END OF FILE: model_object_multimage.cpp ----------------------------- */
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..d86b57d 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -96,6 +96,8 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    void StopBootstrap( ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From a2b5e2e982da54d33ad2f75db668a5bc8d150995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 11/59] fix: report the L-M fit statistic of the returned
 parameters

---
 solvers/mpfit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..413c966 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,8 +1049,8 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
-    result->bestnorm *= result->bestnorm;
+    // fnorm belongs to the returned parameters; fnorm1 may be from a rejected step
+    result->bestnorm = fnorm*fnorm;
     result->orignorm = orignorm;
     result->status   = info;
     result->niter    = iter;
-- 
2.43.0


From 08c6bd6db42352deb49ade15cc949d6b74c1058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 12/59] fix: leave parameters unchanged when DE finds no valid
 solution

---
 solvers/DESolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..be0396c 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -308,6 +308,9 @@ int DESolver::Solve( int maxGenerations, int verbose )
 
 void DESolver::StoreSolution( double *theSolution )
 {
+  // if no valid solution was ever found, leave the input parameter values unchanged
+  if (! (bestEnergy < 1.0E20))
+    return;
   for (int i = 0; i < nDim; i++)
     theSolution[i] = bestSolution[i];
 }
-- 
2.43.0


From 7a4c622e833f31aeef6e7a59e11b4a5f6e7c8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 13/59] fix: bootstrap summary uses successful iterations only,
 and original-image coordinates for best-fit values

---
 core/bootstrap_errors.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 1b4c958..b61806c 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -104,9 +104,6 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
-  
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
     string  headerLine = theModel->GetParamHeader();
@@ -123,27 +120,27 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     		nSuccessfulIterations);
   }
   else {
-    // Apply image-offset corrections to best-fit parameters, so their values
-    // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    // Apply image-offset corrections to best-fit parameters, so they are in the
+    // same coordinate system as the values in outputParamArray
+    double *bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+    theModel->GetImageOffsets(bestfitParams_offsetCorrected);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] += bestfitParams[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
-    						parameterLimits, theModel);
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    						nSuccessfulIterations, parameterLimits, theModel);
+    free(bestfitParams_offsetCorrected);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From dc52a618c91ded04c29fe3ce7e48a52eca71827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 14/59] fix: multimfit, makemultimages: handle several local
 functions per function set, don't read past end of parameter list

---
 core/makemultimages_main.cpp | 7 +++----
 core/multimfit_main.cpp      | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..cb89e04 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -273,13 +273,12 @@ int main( int argc, char *argv[] )
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      // (there can be more than one local function per local function set)
+      for (int localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
     printf("function list: ");
     for (int k = 0; k < (int)currentFunctionList.size(); k++)
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..1c59ec6 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -411,13 +411,12 @@ int main(int argc, char *argv[])
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      // (there can be more than one local function per local function set)
+      for (int localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
 #ifdef USE_LOGGING
     if (options->loggingOn) {
@@ -659,7 +658,7 @@ int main(int argc, char *argv[])
     paramsVect[i] = imageDescParamsVect[i];
   if (options->loggingOn)
     LOG_F(INFO, "Copying initial model parameter values into paramsVect...");
-  for (int i = nImageDescParams; i < nParamsTot; i++)
+  for (int i = nImageDescParams; i < nInputParams_nonLocal; i++)
     paramsVect[i] = parameterList[i - nImageDescParams];
   for (int i = nInputParams_nonLocal; i < nInputParamsTot; i++)
     paramsVect[i] = localParamsList[i - nInputParams_nonLocal];
-- 
2.43.0


From d39142851c221bde9fc785f837a5f89df3641cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 15/59] fix: apply each image's own section offset to X0,Y0 of
 its local functions

---
 core/model_object.h             |  2 +-
 core/model_object_multimage.cpp | 34 +++++++++++++++++
 core/model_object_multimage.h   |  4 ++
 core/utilities_multimfit.cpp    | 67 ++++++---------------------------
 4 files changed, 50 insertions(+), 57 deletions(-)

diff --git a/core/model_object.h b/core/model_object.h
index 95a040a..67a385c 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -167,7 +167,7 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    virtual void  GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 16807f8..df89c07 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -289,6 +289,11 @@ int ModelObjectMultImage::FinalModelSetup( )
   }
   nParamsTot += nPerImageParams;
   
+  // Add names of local, per-image parameters (these come after the global ones)
+  for (int i = 0; i < nModelObjects; i++)
+    for (int j = 0; j < nPerImageParamsForModelObjects[i]; j++)
+      parameterLabels.push_back(modelObjectsVect[i]->GetParameterName(nGlobalFuncParams + j));
+  
   // This must be done *after* we've computed the final values of nParamsTot, etc.
   SetupParamHolder();
   
@@ -638,6 +643,35 @@ string ModelObjectMultImage::GetDataFilename( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetImageOffsets --------------------- */
+/// Given an input array (all zeros) with one element for each parameter, this method 
+/// sets the elements corresponding to X0 and Y0 parameters to the pixel offsets of the 
+/// image in which that X0 or Y0 is defined: the individual image for image-description 
+/// parameters and local, per-image functions; the reference image for the global functions.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  offsetX0, offsetY0;
+  int  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  int  localStart = nImageParams + nGlobalFuncParams;
+
+  for (int i = 0; i < nModelObjects; i++) {
+    if (i > 0) {
+      std::tie(offsetX0, offsetY0) = modelObjectsVect[i]->GetImageOffsets();
+      params[i*N_IMAGE_PARAMS - 2] = offsetX0;
+      params[i*N_IMAGE_PARAMS - 1] = offsetY0;
+    }
+    vector<double>  imageOffsets(nParamsForModelObjects[i], 0.0);
+    modelObjectsVect[i]->GetImageOffsets(imageOffsets.data());
+    if (i == 0)
+      for (int j = 0; j < nGlobalFuncParams; j++)
+        params[nImageParams + j] = imageOffsets[j];
+    for (int j = 0; j < nPerImageParamsForModelObjects[i]; j++)
+      params[localStart + j] = imageOffsets[nGlobalFuncParams + j];
+    localStart += nPerImageParamsForModelObjects[i];
+  }
+}
+
+
 /* ---------------- PUBLIC METHOD: PrintModelParamsHorizontalString --- */
 /// Like PrintModelParamsToString, but prints parameter values all in one line to
 /// a string (*without* parameter names or limits or errors), which is returned.
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index d86b57d..482fd57 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -98,6 +98,10 @@ class ModelObjectMultImage : public ModelObject
 
     void StopBootstrap( ) override;
 
+    using ModelObject::GetImageOffsets;
+
+    void GetImageOffsets( double params[] ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
diff --git a/core/utilities_multimfit.cpp b/core/utilities_multimfit.cpp
index fe685f8..bdf5e5e 100644
--- a/core/utilities_multimfit.cpp
+++ b/core/utilities_multimfit.cpp
@@ -35,64 +35,19 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
 							ModelObjectMultImage *multImageModel )
 {
   int  nParamsTot = multImageModel->GetNParams();
-  int  nImages = multImageModel->GetNImages();
-  int  nImageParams = N_IMAGE_PARAMS * (nImages - 1);
-  int  xOffset_this, yOffset_this, xOffset_ref, yOffset_ref;
-  int  i_x0, i_y0;
+  vector<double>  offsets(nParamsTot, 0.0);
   
-//   for(int i = 0; i < nParamsTot; i++)
-//     printf("i = %d: name = %s\n", i, multImageModel->GetParameterName(i).c_str());
-    
-  // Apply offset fixes to image-description parameter X0,Y0 pairs, for each 
-  // extra image
-  for (int n = 1; n < nImages; n++) {
-    std::tie(xOffset_this,yOffset_this) = multImageModel->GetOffsetsForImage(n);
-//     printf("Offsets for image %d: %d,%d\n", n, xOffset_this,yOffset_this);
-    // assume that X0,Y0 are last two parameters for each image
-    i_x0 = n*N_IMAGE_PARAMS - 2;
-//     printf("  i_x0 = %d: paramVect[i_x0][i] = %.1f\n", i_x0, paramVect[i_x0]);
-    paramVect[i_x0] -= xOffset_this;
-    paramLimits[i_x0].offset = xOffset_this;
-    if (paramLimits[i_x0].limited[0] == 1)
-      paramLimits[i_x0].limits[0] -= xOffset_this;
-    if (paramLimits[i_x0].limited[1] == 1)
-      paramLimits[i_x0].limits[1] -= xOffset_this;
-//     printf("     paramVect[i_x0][i] = %.1f\n", paramVect[i_x0]);
-    i_y0 = i_x0 + 1;
-//     printf("  i_y0 = %d: paramVect[i_y0][i] = %.1f\n", i_y0, paramVect[i_y0]);
-    paramVect[i_y0] -= yOffset_this;
-    paramLimits[i_y0].offset = yOffset_this;
-    if (paramLimits[i_y0].limited[0] == 1)
-      paramLimits[i_y0].limits[0] -= yOffset_this;
-    if (paramLimits[i_y0].limited[1] == 1)
-      paramLimits[i_y0].limits[1] -= yOffset_this;
-//     printf("     paramVect[i_y0][i] = %.1f\n", paramVect[i_y0]);
-  }
+  // Get offsets for X0,Y0 pairs (values for all other parameters remain = 0); these
+  // depend on which image's coordinate system the X0,Y0 values are defined in
+  multImageModel->GetImageOffsets(offsets.data());
   
-  // Apply reference-image offsets to main model's function-block X0,Y0 sets
-  // (reference-image coordinates)
-  std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(0);
-//   printf("Offsets for reference image: %d,%d\n", xOffset_ref,yOffset_ref);
-  for (int i = nImageParams; i < nParamsTot; i++) {
-    if (multImageModel->GetParameterName(i) == X0_string) {
-//       printf("[X0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= xOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = xOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= xOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= xOffset_ref;
-    } else if (multImageModel->GetParameterName(i) == Y0_string) {
-//       printf("[Y0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= yOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = yOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= yOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= yOffset_ref;
-    }
+  for (int i = 0; i < nParamsTot; i++) {
+    paramVect[i] -= offsets[i];
+    paramLimits[i].offset = offsets[i];
+    if (paramLimits[i].limited[0] == 1)
+      paramLimits[i].limits[0] -= offsets[i];
+    if (paramLimits[i].limited[1] == 1)
+      paramLimits[i].limits[1] -= offsets[i];
   }
 }
 
-- 
2.43.0


From f731cca03ed2b8378e454d7d2f62a710a2f643b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 16/59] fix: multi-image bootstrap: deviates of masked images,
 saved rows, header and summary

---
 core/bootstrap_errors.cpp       |  6 ++--
 core/model_object_multimage.cpp | 56 ++++++++++++++-------------------
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index b61806c..5293857 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -400,18 +400,18 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
   
   // now print results for model parameters
-  i_last = i;
+  i_last = i + 1;
   printf("# Model parameters:\n");
   for (i = i_last; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index df89c07..80c63bb 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -441,7 +441,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // (bootstrap resampling generates deviates for valid pixels only)
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -680,40 +684,17 @@ void ModelObjectMultImage::GetImageOffsets( double params[] )
 string ModelObjectMultImage::PrintModelParamsHorizontalString( const double params[], 
 																const string& separator )
 {
-  double  x0, y0, paramVal;
-  int  image1Offset_x0, image1Offset_y0;
-  int  nParamsThisFunc, k, indexOffset, nImageParams;
+  vector<double>  offsets(nParamsTot, 0.0);
   string  outputString = "";
 
-  // pixel offsets for reference image
-  std::tie(image1Offset_x0, image1Offset_y0) = modelObjectsVect[0]->GetImageOffsets();
-  // number of image-description parameters
-  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  // pixel offsets (for X0 and Y0 parameters only)
+  GetImageOffsets(offsets.data());
   
-  // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
-  // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
-
-  indexOffset = nImageParams;
-  for (int n = 0; n < nFunctions; n++) {
-    if (fsetStartFlags[n] == true) {
-      // start of new function set: extract x0,y0 and then skip over them
-      k = indexOffset;
-      x0 = params[k] + image1Offset_x0;
-      y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
-      indexOffset += 2;
-    }
-
-    // Now print the function and its parameters
-    nParamsThisFunc = paramSizes[n];
-    for (int i = 0; i < nParamsThisFunc; i++) {
-      paramVal = params[indexOffset + i];
-      outputString += PrintToString("%s%#.10g", separator.c_str(), paramVal);
-    }
-    indexOffset += paramSizes[n];
+  for (int i = 0; i < nParamsTot; i++) {
+    // Line should start with parameter value (no initial separator)
+    if (i > 0)
+      outputString += separator;
+    outputString += PrintToString("%#.10g", params[i] + offsets[i]);
   }
 
   return outputString;
@@ -747,6 +728,15 @@ string ModelObjectMultImage::GetParamHeader( )
   baseModelParamHeader = modelObjectsVect[0]->GetParamHeader();
   headerLine += baseModelParamHeader.substr(2, string::npos);
   
+  // (the reference image's header included its local, per-image functions; add names
+  // of local parameters for the other images)
+  int  labelIndex = (nModelObjects - 1)*N_IMAGE_PARAMS + nGlobalFuncParams + nPerImageParamsForModelObjects[0];
+  for (int n = 1; n < nModelObjects; n++)
+    for (int j = 0; j < nPerImageParamsForModelObjects[n]; j++) {
+      headerLine += PrintToString("%s_IM_%d\t", parameterLabels[labelIndex].c_str(), n + 1);
+      labelIndex++;
+    }
+  
   return headerLine;
 }
 
@@ -763,6 +753,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
@@ -800,6 +791,7 @@ int ModelObjectMultImage::MakeBootstrapSample( )
 /// of the ModelObject instances in modelObjectsVect.
 void ModelObjectMultImage::StopBootstrap( )
 {
+  doBootstrap = false;
   for (int i = 0; i < nModelObjects; i++)
     modelObjectsVect[i]->StopBootstrap();
 }
-- 
2.43.0


From 0e5ff18223835366f7ebdd512d85a88472b0b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 17/59] fix: image-info file saved by multimfit can be used as
 input again

---
 core/print_results_multi.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..ad20057 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -100,6 +100,13 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   double  *paramErrs = nullptr;
 
   multModel->GetAllImageDescriptionParameters(params, imageDescriptionParams);
+  // correct X0,Y0 for image-section-based offsets
+  for (int i = 1; i < nImages; i++) {
+    int  offsetX0, offsetY0;
+    std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 2] += offsetX0;
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 1] += offsetY0;
+  }
 
   whichSolver = solverResults.GetSolverType();
   if (whichSolver == MPFIT_SOLVER) {
@@ -167,13 +174,21 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
     strings.push_back(PrintToString("GAIN\t\t%g\n", imInfo.gain));
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
+  if (imInfo.expTime != 1.0)
+    strings.push_back(PrintToString("EXPTIME\t\t%g\n", imInfo.expTime));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
+  if (imInfo.maskFormat == MASK_ZERO_IS_BAD)
+    strings.push_back("MASK_ZERO_IS_BAD    yes\n");
   if (imInfo.errorImage_present)
     strings.push_back(PrintToString("ERROR    %s\n", imInfo.errorImageFileName.c_str()));
+  if (imInfo.errorType == WEIGHTS_ARE_VARIANCES)
+    strings.push_back("ERRORS_ARE_VARIANCES    yes\n");
+  else if (imInfo.errorType == WEIGHTS_ARE_WEIGHTS)
+    strings.push_back("ERRORS_ARE_WEIGHTS    yes\n");
   if (imInfo.psfImage_present)
     strings.push_back(PrintToString("PSF    %s\n", imInfo.psfImageFileName.c_str()));
 
-- 
2.43.0


From 8a3652ddb375e4595f1586ea12757ba8ee784f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 18/59] fix: honor the user's seed in DE with Latin hypercube
 sampling

---
 solvers/DESolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index be0396c..a054f6c 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -118,8 +118,8 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     double  intervalSize, p;
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
-    random_device rd;
-    mt19937 g(rd());
+    // (seed from the RNG set up above, so that a user-specified seed is honored)
+    mt19937 g(genrand_int32());
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From c3d959fc28f9377ea4ac647bc5e59d2f8f6b5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 19/59] fix: honor the user's seed in NLopt solvers

---
 solvers/dispatch_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solvers/dispatch_solver.cpp b/solvers/dispatch_solver.cpp
index 04c9f30..dabe367 100644
--- a/solvers/dispatch_solver.cpp
+++ b/solvers/dispatch_solver.cpp
@@ -43,6 +43,7 @@
 #ifndef NO_NLOPT
 #include "nmsimplex_fit.h"
 #include "nlopt_fit.h"
+#include "nlopt.h"
 #endif
 
 int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int nPixelsTot,
@@ -77,6 +78,10 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
     case GENERIC_NLOPT_SOLVER:
       if (verboseLevel >= 0)
         printf("\nCalling NLOpt solver %s ..\n", solverName.c_str());
+      // some NLopt algorithms (e.g., COBYLA, PRAXIS) use NLopt's own, otherwise
+      // time-seeded RNG
+      if (rngSeed > 0)
+        nlopt_srand(rngSeed);
       fitStatus = NLOptFit(nParametersTot, parameters, parameterInfo, modelObj, fracTolerance, 
       						verboseLevel, solverName, solverResults);
       break;
-- 
2.43.0


From d7d77676062fe147f88c42b372e6a3e2eab0f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 20/59] fix: delete[] arrays in DESolver

---
 solvers/DESolver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index a054f6c..4e7cdeb 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -79,14 +79,14 @@ DESolver::DESolver( int dim, int popSize ) :
 
 DESolver::~DESolver( )
 {
-  if (trialSolution) delete trialSolution;
-  if (bestSolution) delete bestSolution;
-  if (popEnergy) delete popEnergy;
-  if (population) delete population;
+  if (trialSolution) delete [] trialSolution;
+  if (bestSolution) delete [] bestSolution;
+  if (popEnergy) delete [] popEnergy;
+  if (population) delete [] population;
   
-  if (oldValues) delete oldValues;
-  if (minBounds) delete minBounds;
-  if (maxBounds) delete maxBounds;
+  if (oldValues) delete [] oldValues;
+  if (minBounds) delete [] minBounds;
+  if (maxBounds) delete [] maxBounds;
 
   trialSolution = bestSolution = popEnergy = population = 0;
 }
-- 
2.43.0


From a867cd52039b0956f3080fc6dfebbe2c30d4d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:07 +0000
Subject: [PATCH 21/59] fix: exclude 1.0 from DE's random numbers used as array
 indices

---
 solvers/DESolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 4e7cdeb..bc00e10 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -570,7 +570,9 @@ double DESolver::RandomUniform( double minValue, double maxValue )
 {
   double  uniformRand, result;
   
-  uniformRand = genrand_real1();   // generates a random number on [0,1]-real-interval
+  // generates a random number on [0,1)-real-interval (excludes 1, since results are
+  // also used as array indices)
+  uniformRand = genrand_real2();
   result = minValue + uniformRand*(maxValue - minValue);
   return result;
 }
-- 
2.43.0


From 4404c1d609b339f0324c27557d352af4933b2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:29 +0000
Subject: [PATCH 22/59] fix: release PsfOversamplingInfo objects with delete

---
 core/imfit_main.cpp          |  2 +-
 core/makeimage_main.cpp      |  2 +-
 core/makemultimages_main.cpp |  2 +-
 core/mcmc_main.cpp           |  2 +-
 core/multimfit_main.cpp      | 20 ++++++++++----------
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..ebc1a8e 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -488,7 +488,7 @@ int main(int argc, char *argv[])
     fftw_free(allMaskPixels);           // allocated externally, in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..23c474d 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -379,7 +379,7 @@ int main( int argc, char *argv[] )
     fftw_free(psfPixels);       // allocated in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index cb89e04..82aaeea 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -416,7 +416,7 @@ int main( int argc, char *argv[] )
       vector<PsfOversamplingInfo *>  oversamplingInfoVect = allPsfOversamplingInfoVectors[i];
       if (oversamplingInfoVect.size() > 0) {
         for (int nn = 0; nn < (int)oversamplingInfoVect.size(); nn++)
-          free(oversamplingInfoVect[nn]);
+          delete oversamplingInfoVect[nn];
         oversamplingInfoVect.clear();
       }
     }
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..0078c0b 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -458,7 +458,7 @@ int main(int argc, char *argv[])
     fftw_free(allMaskPixels);           // allocated externally, in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 1c59ec6..c6ba3ce 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -800,16 +800,6 @@ int main(int argc, char *argv[])
       fftw_free(psfPixelsUsed[i]);      // allocated in ReadImageAsVector()
     psfPixelsUsed.clear();
   }
-  if (allPsfOversamplingInfoVectors.size() > 0) {
-    for (int i = 0; i < (int)allPsfOversamplingInfoVectors.size(); i++) {
-      vector<PsfOversamplingInfo *>  oversamplingInfoVect = allPsfOversamplingInfoVectors[i];
-      if (oversamplingInfoVect.size() > 0) {
-        for (int nn = 0; nn < (int)oversamplingInfoVect.size(); nn++)
-          free(oversamplingInfoVect[nn]);
-        oversamplingInfoVect.clear();
-      }
-    }
-  }
 
 
   // Elapsed time reports
@@ -861,6 +851,16 @@ int main(int argc, char *argv[])
   }
 
 
+  if (allPsfOversamplingInfoVectors.size() > 0) {
+    for (int i = 0; i < (int)allPsfOversamplingInfoVectors.size(); i++) {
+      vector<PsfOversamplingInfo *>  oversamplingInfoVect = allPsfOversamplingInfoVectors[i];
+      if (oversamplingInfoVect.size() > 0) {
+        for (int nn = 0; nn < (int)oversamplingInfoVect.size(); nn++)
+          delete oversamplingInfoVect[nn];
+        oversamplingInfoVect.clear();
+      }
+    }
+  }
   free(paramsVect);
   free(imageDescParamsVect);               // allocated externally, in GetImageDescriptionParams()
   delete theMultImageModel;
-- 
2.43.0


From 107b0a671493026c7d87e8fe2b24adb901a2ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:29 +0000
Subject: [PATCH 23/59] fix: initialise fit-statistic options

---
 core/options_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_base.h b/core/options_base.h
index 259ffd3..93acbcf 100644
--- a/core/options_base.h
+++ b/core/options_base.h
@@ -68,6 +68,9 @@ class OptionsBase
 
       printFitStatisticOnly = false;
       solver = MPFIT_SOLVER;
+      useModelForErrors = false;
+      useCashStatistic = false;
+      usePoissonMLR = false;
 
       subsamplingFlag = true;
 
-- 
2.43.0


From 737b8071f7dda0bcdba04bc941ce6b7bcc5497e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 24/59] fix: multimfit: oversampled regions are in the
 coordinates of the full image

---
 core/multimfit_main.cpp         | 3 ++-
 core/store_psf_oversampling.cpp | 4 +++-
 core/store_psf_oversampling.h   | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index c6ba3ce..b6e9472 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -376,7 +376,8 @@ int main(int argc, char *argv[])
     // Read in oversampled PSF image, if supplied
     if (imageInfoVect[i].psfOversampledImage_present) {
       options->psfOversampling = true;
-      status = ExtractAndStorePsfOversampling(imageInfoVect[i], i, psfOversamplingInfoVect);
+      status = ExtractAndStorePsfOversampling(imageInfoVect[i], i, psfOversamplingInfoVect,
+      										X0_offset_current, Y0_offset_current);
       if (status < 0)
         exit(status);
     }
diff --git a/core/store_psf_oversampling.cpp b/core/store_psf_oversampling.cpp
index a1c996d..c2f4853 100644
--- a/core/store_psf_oversampling.cpp
+++ b/core/store_psf_oversampling.cpp
@@ -42,7 +42,8 @@ using namespace std;
 
 
 int ExtractAndStorePsfOversampling( const ImageInfo &imageInfo, int i,
-									vector<PsfOversamplingInfo *>  &oversamplingInfoVect )
+									vector<PsfOversamplingInfo *>  &oversamplingInfoVect,
+									int xOffset, int yOffset )
 {
   int  nColumns_psf_oversampled, nRows_psf_oversampled;
   long  nPixels_psf_oversampled;
@@ -78,6 +79,7 @@ int ExtractAndStorePsfOversampling( const ImageInfo &imageInfo, int i,
   // oversampling region), then add them to oversamplingInfoVect
   for (int nn = 0; nn < nOversampledRegions; nn++) {
     newPsfOversamplingInfo = new PsfOversamplingInfo();
+    newPsfOversamplingInfo->AddImageOffset(xOffset, yOffset);
     newPsfOversamplingInfo->AddRegionString(imageInfo.psfOversampleRegions[nn]);
     bool newPsfOversampledPixelsFlag = false;
     if ( (nn == 0) || ((nn > 0) && (nOversampledPsfImages > 1)) ) {
diff --git a/core/store_psf_oversampling.h b/core/store_psf_oversampling.h
index e01ae05..edfab18 100644
--- a/core/store_psf_oversampling.h
+++ b/core/store_psf_oversampling.h
@@ -26,6 +26,7 @@ using namespace std;
 
 
 int ExtractAndStorePsfOversampling( const ImageInfo &imageInfoObj, int i,
-									vector<PsfOversamplingInfo *>  &oversamplingInfoVect );
+									vector<PsfOversamplingInfo *>  &oversamplingInfoVect,
+									int xOffset=0, int yOffset=0 );
 
 #endif /* _STORE_PSF_OVERSAMPLING_H_ */
-- 
2.43.0


From c504dd90fbd4266f3009b0c115d9a96296f88d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:56 +0000
Subject: [PATCH 25/59] fix: image sections with blanks next to '*' ("[5:20,
 *]") have an offset

---
 core/utilities.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..81999bb 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -277,7 +277,7 @@ void TrimWhitespace( string& stringToModify )
 
   string::size_type  startIndex = stringToModify.find_first_not_of(" \t\n");
   string::size_type  endIndex = stringToModify.find_last_not_of(" \t\n");
-  if (startIndex == endIndex)
+  if (startIndex == string::npos)
     stringToModify.clear();
   else
     stringToModify = stringToModify.substr(startIndex, (endIndex - startIndex + 1) );
@@ -358,6 +358,9 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   x1 = y1 = 0;
   
   SplitString(bracketString, sectionPieces, ",");
+  // spaces around the pieces are allowed (e.g., "[10:20, *]")
+  TrimWhitespace(sectionPieces[0]);
+  TrimWhitespace(sectionPieces[1]);
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From 51916776730109bf159cc4812da469b554028043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 26/59] fix: imfit-mcmc --append: chain files are in full-image
 coordinates

---
 cdream/dream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..89e3705 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -99,6 +99,16 @@ int dream( const dream_pars* p, rng::RngStream* rng )
     fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
+  if (p->appendFile) {
+    // chain files are in the coordinates of the full image, while internal
+    // values are relative to the image section being fit
+    vector<double> offsets(p->nvar, 0.0);
+    theModel->GetImageOffsets(offsets.data());
+    for (int t = 0; (t <= prevLines) && (t < p->maxEvals); ++t)
+      for (int i = 0; i < p->numChains; ++i)
+        for (int j = 0; j < p->nvar; ++j)
+          state(t,i,j) -= offsets[j];
+  }
   // =========================================================================
   // open output file
 
-- 
2.43.0


From 9d369166f68869fa9f41eb23ddaf27d657196d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 27/59] fix: image sections: leave TrimWhitespace alone (a lone
 character counts as blank)

---
 core/utilities.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 81999bb..8295dd5 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <cstdarg>
 #include <tuple>
+#include <algorithm>
 
 using namespace std;
 
@@ -277,7 +278,7 @@ void TrimWhitespace( string& stringToModify )
 
   string::size_type  startIndex = stringToModify.find_first_not_of(" \t\n");
   string::size_type  endIndex = stringToModify.find_last_not_of(" \t\n");
-  if (startIndex == string::npos)
+  if (startIndex == endIndex)
     stringToModify.clear();
   else
     stringToModify = stringToModify.substr(startIndex, (endIndex - startIndex + 1) );
@@ -359,8 +360,8 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   
   SplitString(bracketString, sectionPieces, ",");
   // spaces around the pieces are allowed (e.g., "[10:20, *]")
-  TrimWhitespace(sectionPieces[0]);
-  TrimWhitespace(sectionPieces[1]);
+  for (string& piece : sectionPieces)
+    piece.erase(std::remove(piece.begin(), piece.end(), ' '), piece.end());
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From 0a4cf6de625520f815ef961d317ff72723c53a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 28/59] fix: config files: keywords are recognised only as the
 first word of a line; comments in image-info files

---
 core/config_file_parser.cpp      | 44 ++++++++++++++++++++++++--------
 core/config_file_parser.h        |  3 +++
 core/imageparams_file_parser.cpp | 19 +++++++++-----
 3 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..6365a1f 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -57,6 +57,19 @@ void ReportConfigError( const int errorCode, const int origLineNumber );
 static string  fixedIndicatorString = "fixed";
 
 
+/* ---------------- FUNCTION: LineHasKeyword --------------------------- */
+// Returns true if the first token of the line is the specified keyword (so that
+// the same text in parameter names, labels, or comments has no effect).
+bool LineHasKeyword( const string& theLine, const string& keyword )
+{
+  size_t  start = theLine.find_first_not_of(" \t\n");
+  if ((start == string::npos) || (theLine.compare(start, keyword.size(), keyword) != 0))
+    return false;
+  size_t  end = start + keyword.size();
+  return (end == theLine.size()) || (string(" \t\n#").find(theLine[end]) != string::npos);
+}
+
+
 
 /* ---------------- FUNCTION: ValidParameterLine ----------------------- */
 // Checks to see that a line has at least two tokens. In addition, if we're
@@ -267,12 +280,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], "X0")) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (! LineHasKeyword(inputLines[i + 1], "Y0")) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -285,7 +298,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (LineHasKeyword(inputLines[i], "FUNCTION")) {
         functionsExist = true;
         break;
       }
@@ -302,13 +315,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (! LineHasKeyword(inputLines[i], "FUNCTION")) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_START)) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_END)) {
           inOptionalParams = false;
           continue;
         }
@@ -321,6 +334,15 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           break;
         }
       }
+      else {
+        // function-declaration line must include the function name
+        string  functionLine = inputLines[i];
+        if (! ValidParameterLine(functionLine, true)) {
+          allOK = false;
+          *badLineNumber = origLineNumbers[i];
+          break;
+        }
+      }
     }
   }
   
@@ -400,7 +422,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], "X0")) {
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -415,7 +437,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if (! LineHasKeyword(inputLines[i], "Y0")) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
           				origLineNumbers[i] - 1);
@@ -435,7 +457,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], "FUNCTION")) {
       //printf("Function detected (i = %d)\n", i);
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
@@ -448,12 +470,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_START)) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_END)) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
diff --git a/core/config_file_parser.h b/core/config_file_parser.h
index 1f32bfa..30ee445 100644
--- a/core/config_file_parser.h
+++ b/core/config_file_parser.h
@@ -36,6 +36,9 @@ static vector< map<string, string> > EMPTY_MAP_VECTOR_CONFIGPARSER;
 int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumbers, 
 					const bool mode2D, int *badLineNumber );
 
+/// \brief Utility function: returns true if the first token of a line is the given keyword
+bool LineHasKeyword( const string& theLine, const string& keyword );
+
 /// \brief Utility function: returns true if line has 2+ elements and 2nd is numeric
 //
 /// (This is only used inside VetConfigFile, but is exposed in the header file so
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..2872efc 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -134,7 +134,7 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   i = 0;
   nInputLines = inputLines.size();
   while (i < nInputLines) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos) {
+    if (LineHasKeyword(inputLines[i], "IMAGE_START")) {
       imageSectionFound = true;
       break;
     }
@@ -145,12 +145,12 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   for (i = 0; i < nInputLines; i++) {
     // need to copy string so ValidParameterLine() can accept & operate on it.
     string currentLine = inputLines[i];
-    if (currentLine.find("IMAGE_START", 0) != string::npos) {
+    if (LineHasKeyword(currentLine, "IMAGE_START")) {
       imageSectionFound = true;
       continue;
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
-    if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
+    if (! (LineHasKeyword(currentLine, "FUNCTIONS_START"))) {
       if (! ValidParameterLine(currentLine, true)) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
@@ -535,7 +535,7 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
   int  returnVal = 0;
   
   for (int i = 0; i < nLines; i++) {
-    if (lines[i].find("FUNCTIONS_START", 0) != string::npos) {
+    if (LineHasKeyword(lines[i], "FUNCTIONS_START")) {
       returnVal = i;
       break;
     }
@@ -582,8 +582,13 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     TrimWhitespace(inputLine);
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
+      // (comments on FUNCTION lines are kept, since they can contain labels)
+      if (! LineHasKeyword(inputLine, "FUNCTION")) {
+        ChopComment(inputLine);
+        TrimWhitespace(inputLine);
+      }
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
@@ -602,7 +607,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 
   // look for IMAGE_START to chop up input into per-image sections
   for (i = 0; i < nInputLines; i++) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos)
+    if (LineHasKeyword(inputLines[i], "IMAGE_START"))
       imageStartIndices.push_back(i);
   }
   nImages = imageStartIndices.size();
@@ -630,7 +635,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       imageFunctionsLines.clear();
       for (i = imageFunctionsStartIndex + 1; i < currentEndIndex; i++) {
         imageFunctionsLines.push_back(inputLines[i]);
-        functionSectionLineNumbers.push_back(i);
+        functionSectionLineNumbers.push_back(origLineNumbers[i]);
       }
       bool  paramLimitsExist = false;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
-- 
2.43.0


From 928e3f9e11f1d1474bb693c0ff8bb3d6aba55674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 29/59] fix: makeimage: image size is taken from the reference
 image also when only fluxes are requested

---
 core/makeimage_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 23c474d..1173966 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -189,7 +189,7 @@ int main( int argc, char *argv[] )
     }
   }
   // Get image size from reference image, if necessary
-  if ((! printFluxesOnly) && (options->noImageDimensions)) {
+  if ((! options->noRefImage) && (options->noImageDimensions)) {
     //status = GetImageSize(options->referenceImageName, &nColumns, &nRows);
     std::tie(nColumns, nRows, status) = GetImageSize(options->referenceImageName);
     if (status != 0) {
-- 
2.43.0


From 1b076a46b79c78cfe12655f572121378952f2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 30/59] fix: single-character function labels are kept

---
 core/config_file_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 6365a1f..63df80f 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -231,7 +231,9 @@ string GetFunctionLabel( const string& currentLine )
   else {
     loc2 = loc1 + 5;   // just past final character of "LABEL"
     label = currentLine.substr(loc2);
-    TrimWhitespace(label);
+    // (TrimWhitespace() would remove single-character labels)
+    label.erase(0, label.find_first_not_of(" \t\n"));
+    label.erase(label.find_last_not_of(" \t\n") + 1);
   }
   return label;
 }
-- 
2.43.0


From 95ecae410c7496b58bf022e395e60f7cc8ab9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 31/59] fix: multimfit, makemultimages: use optional parameters
 of functions

---
 core/definitions_multimage.h     | 2 ++
 core/imageparams_file_parser.cpp | 8 +++++++-
 core/makemultimages_main.cpp     | 4 ++--
 core/multimfit_main.cpp          | 4 ++--
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index f541799..62e0dbf 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <vector>
+#include <map>
 #include <strings.h>
 
 #include "definitions.h"
@@ -103,6 +104,7 @@ class ImageInfo
     vector<double> perImageParamVals;
     bool perImageParamLimitsExist;
     vector<mp_par> perImageParamLimits;
+    vector< map<string, string> > perImageOptionalParams;
     
 
     mp_par  pixelScale_limitInfo;
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 2872efc..7a5a309 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -150,6 +150,9 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
       continue;
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
+    // (or else the start or end of a function's optional parameters)
+    if (LineHasKeyword(currentLine, "OPTIONAL_PARAMS_START") || LineHasKeyword(currentLine, "OPTIONAL_PARAMS_END"))
+      continue;
     if (! (LineHasKeyword(currentLine, "FUNCTIONS_START"))) {
       if (! ValidParameterLine(currentLine, true)) {
         badLineNumbers.push_back(origLineNumbers[i]);
@@ -638,9 +641,11 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
         functionSectionLineNumbers.push_back(origLineNumbers[i]);
       }
       bool  paramLimitsExist = false;
+      vector< map<string, string> >  optionalParams;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
 						funcLabelList, funcParams, funcParamLimits, funcSetStartIndices,
-						paramLimitsExist, functionSectionLineNumbers);
+						paramLimitsExist, functionSectionLineNumbers, false,
+						optionalParams);
 	  if (status < 0) {
 	    fprintf(stderr, "ERROR MESSAGE ABOUT FAILURE IN ParseFunctionSection\n");
 	    return -1;
@@ -651,6 +656,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 	  imageInfoList[k].perImageParamVals = funcParams;
 	  imageInfoList[k].perImageParamLimitsExist = paramLimitsExist;
 	  imageInfoList[k].perImageParamLimits = funcParamLimits;
+	  imageInfoList[k].perImageOptionalParams = optionalParams;
 	  imageInfoList[k].perImageFunctionsExist = true;
     }
  }
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 82aaeea..3ad07b0 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -158,7 +158,7 @@ int main( int argc, char *argv[] )
   }
   status = ReadConfigFile(options->configFileName, true, functionList, 
   							functionLabelList, parameterList, functionSetIndices, 
-  							userConfigOptions);
+  							userConfigOptions, optionalParamsMap);
   if (status != 0) {
     fprintf(stderr, "\n*** ERROR: Failure reading configuration file \"%s\"!\n\n", 
     			options->configFileName.c_str());
@@ -273,7 +273,7 @@ int main( int argc, char *argv[] )
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        //FIXME: handle any extra, local-function optional-parameter-map values
+        currentOptionalParamsMap.push_back(imageInfoVect[i].perImageOptionalParams[j]);
         globalFuncFlags.push_back(false);
       }
       // (there can be more than one local function per local function set)
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index b6e9472..a5e2db8 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -214,7 +214,7 @@ int main(int argc, char *argv[])
   }
   status = ReadConfigFile(options->configFileName, true, functionList, functionLabelList,
   							parameterList, paramLimits, functionSetIndices, 
-  							paramLimitsExist_func, userConfigOptions);
+  							paramLimitsExist_func, userConfigOptions, optionalParamsMap);
   if (status != 0) {
     fprintf(stderr, "\n*** ERROR: Failure reading configuration file \"%s\"!\n\n", 
     			options->configFileName.c_str());
@@ -412,7 +412,7 @@ int main(int argc, char *argv[])
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        //FIXME: handle any extra, local-function optional-parameter-map values
+        currentOptionalParamsMap.push_back(imageInfoVect[i].perImageOptionalParams[j]);
         globalFuncFlags.push_back(false);
       }
       // (there can be more than one local function per local function set)
-- 
2.43.0


From f490bafbd2ba4582a8d558e947c246def1d5679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:13 +0000
Subject: [PATCH 32/59] fix: images stored in compressed form are read with
 their true dimensions

---
 core/image_io.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..fe859ba 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -182,7 +182,6 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   fitsfile  *imfile_ptr;
   int  status = 0;
   int  problems = 0;
-  int  nfound;
   long  naxes[2];
   int  n_columns = 0;
   int  n_rows = 0;
@@ -203,9 +202,9 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
     return std::make_tuple(n_columns, n_rows, -1);
   }  
 
-  /* read the NAXIS1 and NAXIS2 keyword to get image size */
-  problems = fits_read_keys_lng(imfile_ptr, "NAXIS", 1, 2, naxes, &nfound,
-				  &status);
+  /* get image size (n.b.: this is NAXIS1 and NAXIS2 *unless* image is stored in
+     compressed form, in which case NAXISn describe the binary table holding it) */
+  problems = fits_get_img_size(imfile_ptr, 2, naxes, &status);
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
@@ -246,7 +245,6 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   int  status = 0;
   int  problems = 0;
   int  validHDU_flag = 0;
-  int  nfound;
   long  naxes[2];
   long  nPixelsTot;
   long  firstPixel[2] = {1, 1};
@@ -262,9 +260,9 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   else
     return nullptr;
 
-  /* read the NAXIS1 and NAXIS2 keyword to get image size */
-  problems = fits_read_keys_lng(imfile_ptr, "NAXIS", 1, 2, naxes, &nfound,
-				  &status);
+  /* get image size (n.b.: this is NAXIS1 and NAXIS2 *unless* image is stored in
+     compressed form, in which case NAXISn describe the binary table holding it) */
+  problems = fits_get_img_size(imfile_ptr, 2, naxes, &status);
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
-- 
2.43.0


From a0216d019c2cb9fd4c629e3e6c8f1dc8ed1343a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:42 +0000
Subject: [PATCH 33/59] fix: undefined pixels of integer and compressed images
 are read as NaN

---
 core/image_io.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index fe859ba..0403bd8 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -90,6 +90,7 @@
 /* ------------------------ Include Files (Header Files )--------------- */
 
 #include <stdlib.h>
+#include <math.h>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -279,7 +280,14 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   
   // Read in the image data
   imageVector = fftw_alloc_real(nPixelsTot);
-  problems = fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nPixelsTot, nullptr, imageVector,
+  // Undefined pixels are already NaN in ordinary floating-point images; in integer images
+  // (BLANK keyword) and compressed images they are special values, which we replace by NaN
+  int  bitpix = 0;
+  double  undefinedPixel = NAN;
+  fits_get_img_type(imfile_ptr, &bitpix, &status);
+  bool  convertUndefined = (bitpix > 0) || fits_is_compressed_image(imfile_ptr, &status);
+  problems = fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nPixelsTot, 
+  							convertUndefined ? &undefinedPixel : nullptr, imageVector,
                             nullptr, &status);
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading pixel data from FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
-- 
2.43.0


From 371cae4922e0ba03f68cae1b38ca4c24b4e31090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:50 +0000
Subject: [PATCH 34/59] fix: undefined pixels of integer images: cfitsio
 requires a flag to return

---
 core/image_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 0403bd8..a70a213 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -283,12 +283,13 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   // Undefined pixels are already NaN in ordinary floating-point images; in integer images
   // (BLANK keyword) and compressed images they are special values, which we replace by NaN
   int  bitpix = 0;
+  int  anyUndefined = 0;
   double  undefinedPixel = NAN;
   fits_get_img_type(imfile_ptr, &bitpix, &status);
   bool  convertUndefined = (bitpix > 0) || fits_is_compressed_image(imfile_ptr, &status);
   problems = fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nPixelsTot, 
   							convertUndefined ? &undefinedPixel : nullptr, imageVector,
-                            nullptr, &status);
+                            &anyUndefined, &status);
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading pixel data from FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
-- 
2.43.0


From 7d41a4dea29469d5fd077da1e45057802fb4b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 35/59] fix: imfit-mcmc: use at least three chains

---
 core/mcmc_main.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 0078c0b..af4fa0e 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -77,6 +77,7 @@ static string  kNCombinedString = "NCOMBINED";
 static string  kOriginalSkyString = "ORIGINAL_SKY";
 
 const string  LOG_FILENAME = "log_imfit-mcmc.txt";
+const int  MIN_MCMC_CHAINS = 3;
 
 
 #ifdef USE_OPENMP
@@ -390,10 +391,15 @@ int main(int argc, char *argv[])
     paramNames[i] = theModel->GetParameterName(i);
   }
 
-  // Default is nChains = N_free_params (dimensionality of parameter space)
-  if (options->nChains <= 0) {
-    printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
-    options->nChains = nFreeParams;
+  // Default is nChains = N_free_params (dimensionality of parameter space); the DREAM
+  // algorithm needs at least three chains
+  if (options->nChains == -1) {
+    options->nChains = (nFreeParams > MIN_MCMC_CHAINS) ? nFreeParams : MIN_MCMC_CHAINS;
+    printf("Setting nChains = %d (nFreeParams, but at least %d)\n", options->nChains, MIN_MCMC_CHAINS);
+  }
+  if (options->nChains < MIN_MCMC_CHAINS) {
+    fprintf(stderr, "*** ERROR: number of MCMC chains must be at least %d!\n\n", MIN_MCMC_CHAINS);
+    exit(-1);
   }
 
   dream_pars dreamPars;
-- 
2.43.0


From d6623434625c7689432221b1d9e4e3084e47ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 36/59] fix: multi-image: positions of further function sets
 follow the pixel scale like all other lengths

---
 core/paramvector_processing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/paramvector_processing.cpp b/core/paramvector_processing.cpp
index 90cb484..c2f0e7e 100644
--- a/core/paramvector_processing.cpp
+++ b/core/paramvector_processing.cpp
@@ -96,9 +96,10 @@ std::tuple<double, double, int> CalculateOffset_X0Y0( double X0_0_ref, double Y0
   double deltaX_n_im = deltaX_n_ref*cosTheta + deltaY_n_ref*sinTheta;
   double deltaY_n_im = -deltaX_n_ref*sinTheta + deltaY_n_ref*cosTheta;
 
-  // transform scaled offsets to current image
-  double X0_out = X0_0_im + pixScale_im*deltaX_n_im;
-  double Y0_out = Y0_0_im + pixScale_im*deltaY_n_im;
+  // transform scaled offsets to current image (pixels of current image are pixScale_im times
+  // the size of reference-image pixels)
+  double X0_out = X0_0_im + deltaX_n_im/pixScale_im;
+  double Y0_out = Y0_0_im + deltaY_n_im/pixScale_im;
   
   return std::make_tuple(X0_out, Y0_out, 0);
 }
-- 
2.43.0


From c77cc24b26aa8485f9c96bb7d7bae0e47003e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 37/59] fix: FlatBar: central intensity follows the flux scale
 of an image, not its pixel scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 78fda8ca03cd610b90b11d81faee396949790db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 38/59] fix: TiltedSkyPlane: slopes follow pixel scale,
 rotation and flux scale of an image

---
 function_objects/func_tilted-sky-plane.cpp | 25 ++++++++++++++++++----
 function_objects/func_tilted-sky-plane.h   |  1 +
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..48ade35 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -42,6 +42,7 @@ const char  PARAM_LABELS[][20] = {"I_0", "m_x", "m_y"};
 const char  PARAM_UNITS[][30] = {"counts/pixel", "", ""};
 const char  FUNCTION_NAME[] = "Tilted sky-plane background function";
 
+const double  DEG2RAD = 0.017453292519943295;
 const char TiltedSkyPlane::className[] = "TiltedSkyPlane";
 
 
@@ -76,7 +77,24 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
 {
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
+  // slopes (units of counts/pixel^2): rotate, rescale intensity, rescale size
+  double  m_x_in = inputFunctionParams[1 + offsetIndex];
+  double  m_y_in = inputFunctionParams[2 + offsetIndex];
+  RescaleSlopes(m_x_in, m_y_in, adjustedFunctionParams[1 + offsetIndex], 
+  				adjustedFunctionParams[2 + offsetIndex]);
+}
+
+
+/* ---------------- PRIVATE METHOD: RescaleSlopes ---------------------- */
+/// Converts slopes in reference-image coordinates to slopes in the current image
+void TiltedSkyPlane::RescaleSlopes( double m_x_in, double m_y_in, double& m_x_out, 
+									double& m_y_out )
+{
+  double  scale = intensityScale / pixelScaling;
+  double  cosRot = cos(imageRotation * DEG2RAD);
+  double  sinRot = sin(imageRotation * DEG2RAD);
+  m_x_out = scale * (m_x_in*cosRot + m_y_in*sinRot);
+  m_y_out = scale * (-m_x_in*sinRot + m_y_in*cosRot);
 }
 
 
@@ -87,9 +105,8 @@ void TiltedSkyPlane::Setup( double params[], int offsetIndex, double xc, double
   x0 = xc;
   y0 = yc;
   I_0 = params[0 + offsetIndex ] * intensityScale;
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
-  m_x = params[1 + offsetIndex ];   // slope in x-direction
-  m_y = params[2 + offsetIndex ];   // slope in y-direction
+  // slopes in x- and y-directions
+  RescaleSlopes(params[1 + offsetIndex ], params[2 + offsetIndex ], m_x, m_y);
 }
 
 
diff --git a/function_objects/func_tilted-sky-plane.h b/function_objects/func_tilted-sky-plane.h
index 77ccb5e..40fb1f3 100644
--- a/function_objects/func_tilted-sky-plane.h
+++ b/function_objects/func_tilted-sky-plane.h
@@ -36,6 +36,7 @@ class TiltedSkyPlane : public FunctionObject
 
 
   private:
+    void  RescaleSlopes( double m_x_in, double m_y_in, double& m_x_out, double& m_y_out );
     double  x0, y0, I_0, m_x, m_y;
 };
 
-- 
2.43.0


From c308f76382674a1d4eb8edea1af73afb2c228bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 39/59] fix: imfit-mcmc: message about the default number of
 chains as before

---
 core/mcmc_main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index af4fa0e..7b34471 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -395,7 +395,10 @@ int main(int argc, char *argv[])
   // algorithm needs at least three chains
   if (options->nChains == -1) {
     options->nChains = (nFreeParams > MIN_MCMC_CHAINS) ? nFreeParams : MIN_MCMC_CHAINS;
-    printf("Setting nChains = %d (nFreeParams, but at least %d)\n", options->nChains, MIN_MCMC_CHAINS);
+    if (nFreeParams >= MIN_MCMC_CHAINS)
+      printf("Setting nChains = %d (nFreeParams)\n", options->nChains);
+    else
+      printf("Setting nChains = %d (minimum)\n", options->nChains);
   }
   if (options->nChains < MIN_MCMC_CHAINS) {
     fprintf(stderr, "*** ERROR: number of MCMC chains must be at least %d!\n\n", MIN_MCMC_CHAINS);
-- 
2.43.0


From 12576d7051bdcd08c70c9a86303338277bf91f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 40/59] fix: multimfit: per-image parameter files hold the
 parameters of that image

---
 core/model_object.cpp           | 20 ++++++++++++++++++++
 core/model_object.h             |  3 +++
 core/model_object_multimage.cpp |  3 +++
 3 files changed, 26 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index d3ec661..fb12ac3 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1102,6 +1102,26 @@ void ModelObject::SetImageParameters( double imageDescriptionParams[] )
 }
 
 
+/* ---------------- PUBLIC METHOD: AdjustParametersForImage ------------ */
+/// Converts function parameters (of the global functions) to the values they have in 
+/// this particular image, given the current image-description parameters (see 
+/// SetImageParameters).
+void ModelObject::AdjustParametersForImage( double params[] )
+{
+  int  offset = 0;
+  
+  for (int n = 0; n < nFunctions; n++) {
+    if (fsetStartFlags[n])
+      offset += 2;   // skip over X0,Y0
+    if (globalFunctionFlags[n]) {
+      vector<double>  inputParams(params, params + offset + paramSizes[n]);
+      functionObjects[n]->AdjustParametersForImage(inputParams.data(), params, offset);
+    }
+    offset += paramSizes[n];
+  }
+}
+
+
 /* ---------------- PUBLIC METHOD: CreateModelImage -------------------- */
 
 void ModelObject::CreateModelImage( double params[] )
diff --git a/core/model_object.h b/core/model_object.h
index 67a385c..59dfe80 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -127,6 +127,9 @@ class ModelObject
 
     // [x] used in multimfit-related programs
     virtual void SetImageParameters( double imageDescriptionParams[] );
+
+    // used by ModelObjectMultImage
+    void AdjustParametersForImage( double params[] );
     
     // common, but specialized by ModelObject1D
     virtual void CreateModelImage( double params[] );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 80c63bb..e8149e9 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -584,6 +584,9 @@ void ModelObjectMultImage::GetParameterStringsForOneImage( vector<string> &strin
   // internal FunctionObjects, so they can adjust intensities, sizes, etc.
   modelObjectsVect[imageNumber]->SetImageParameters(imageDescriptionParams[imageNumber]);
   
+  // Convert parameters of global functions to their values in image #imageNumber
+  modelObjectsVect[imageNumber]->AdjustParametersForImage(paramsForModelObjects[imageNumber]);
+
   // If errors were supplied, compute offset into the error vector so we skip over
   // the image-description-parameter errors and get just the function-parameter errors, 
   // not the image-description-parameter errors
-- 
2.43.0


From be1c89a37bd10f35f921373fb747d2fa0a65803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 41/59] fix: makemultimages: honour --nosave

---
 core/makemultimages_main.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 3ad07b0..1278140 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -389,10 +389,12 @@ int main( int argc, char *argv[] )
     std::tie(nColsThisImage, nRowsThisImage) = theMultImageModel->GetImageDimensions(i);
     string multImageOutputName = PrintToString("%s_%d.fits", options->outputImageName.c_str(), i);
     printf("MULTIMFIT: image %d: nCols,nRows = %d,%d\n", i, nColsThisImage, nRowsThisImage);
-    printf("   Saving to: %s\n", multImageOutputName.c_str());
-    status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
+    if (options->saveImage) {
+      printf("   Saving to: %s\n", multImageOutputName.c_str());
+      status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
     							multImageOutputName, nColsThisImage, nRowsThisImage,
     							imageCommentsList);
+    }
   }
 
   
-- 
2.43.0


From ebc8590292816d7e268e8d4f417864ed1a5922df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 42/59] fix: makeimage: fractions of total flux when there are
 only background components

---
 core/makeimage_main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 1173966..97b16c0 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -762,7 +762,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     }
     else {
       thisFlux = fluxes[n];
-      fraction = thisFlux / totalFlux;
+      // (total flux is zero if there are only background components)
+      fraction = (totalFlux != 0.0) ? thisFlux / totalFlux : 0.0;
       componentName = functionNames[n];
     }
     thisLine += PrintToString("%-25s %10.4e", componentName.c_str(), thisFlux);
-- 
2.43.0


From 109b2cc089da64d849ec603ccdf32ebbd4cda93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 43/59] fix: psfconvolve1d: PSF may have more points than the
 profile

---
 profile_fitting/psfconvolve1d_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile_fitting/psfconvolve1d_main.cpp b/profile_fitting/psfconvolve1d_main.cpp
index 53b0767..f091279 100644
--- a/profile_fitting/psfconvolve1d_main.cpp
+++ b/profile_fitting/psfconvolve1d_main.cpp
@@ -153,7 +153,7 @@ int main(int argc, char *argv[])
 
   nSavedRows = ReadDataFile(options.psfProfileName, startDataRow, endDataRow, 
                              xVals_psf, yVals_psf, NULL, NULL);
-  if (nSavedRows > nStoredDataVals) {
+  if (nSavedRows > nPSFVals) {
     fprintf(stderr, "\nMore PSF rows saved (%d) than we allocated space for (%d)!\n",
             nSavedRows, nPSFVals);
     exit(-1);
-- 
2.43.0


From 281980ffdc5d3c2c55002a21926409186f4de5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 44/59] fix: bootstrap resampling ends when the user interrupts
 it

---
 core/bootstrap_errors.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 5293857..53d42d2 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -216,6 +216,13 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    // User typed Ctrl-C: the fit for this iteration was cut short, so ignore it
+    if (stopSignal_flag == 1) {
+      printf("\n*** User-requested termination of bootstrap iterations...\n");
+      break;
+    }
+#endif
     // Store parameters in array (and optionally write them to file) if fit was successful
     // Note that paramsVect has subsection-relative values of X0,Y0, so we need to
     // correct them with paramOffsets
@@ -305,6 +312,10 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    if (stopSignal_flag == 1)
+      break;
+#endif
     // Store parameters in array if fit was successful.
     // Note that paramsVect has image-subsection-relative values of X0,Y0, 
     // so we need to correct them with paramOffsets
-- 
2.43.0


From d287fa209387d6d2142f044737bc8ce5c7f770e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 45/59] fix: initialise perImageParamLimitsExist in multi-image
 command-line options

---
 core/definitions_multimage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index 62e0dbf..ca34c81 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -70,6 +70,7 @@ class ImageInfo
       bzero(&y0_limitInfo, sizeof(mp_par));
       
       perImageFunctionsExist = false;
+      perImageParamLimitsExist = false;
     }
     
     string  dataImageFileName;
-- 
2.43.0


From c44ad98cc33d2c197a728bdd83bea88523266ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 46/59] fix: interrupted NLopt and N-M fits return the best
 parameters found so far

---
 solvers/nlopt_fit.cpp     | 16 ++++++++++++++++
 solvers/nmsimplex_fit.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..1dfd577 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -82,6 +82,9 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 static int  verboseOutput;
 static int  funcCallCount = 0;
 nlopt_opt  theOptimizer;
+// best parameter values found so far, and corresponding fit statistic
+static vector<double>  bestParamVector;
+static double  bestStatisticVal;
 string  currentSolverName;
 
 
@@ -124,6 +127,10 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   nlopt_result  junk;
   
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParamVector.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -316,7 +323,16 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  bestParamVector.assign(paramVector, paramVector + nParamsTot);
+  bestStatisticVal = initialStatisticVal;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
+  // If optimization was stopped early (e.g. by user interrupt), then some algorithms do not
+  // return the best parameter values found so far (or return internally rescaled values)
+  if (result == NLOPT_FORCED_STOP) {
+    for (int i = 0; i < nParamsTot; i++)
+      paramVector[i] = bestParamVector[i];
+    finalStatisticVal = bestStatisticVal;
+  }
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
 
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 1fa3311..a2fcf6b 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -75,6 +75,9 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 static int  verboseOutput;
 static int  funcCallCount = 0;
 nlopt_opt  optimizer;
+// best parameter values found so far, and corresponding fit statistic
+static vector<double>  bestParamVector;
+static double  bestStatisticVal;
 
 
 
@@ -91,6 +94,10 @@ double myfunc_nlopt( unsigned n, const double *x, double *grad, void *my_func_da
   nlopt_result  junk;
   
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParamVector.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -220,7 +227,16 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
   
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  bestParamVector.assign(paramVector, paramVector + nParamsTot);
+  bestStatisticVal = HUGE_VAL;
   result = nlopt_optimize(optimizer, paramVector, &finalStatisticVal);
+  // If optimization was stopped early (e.g. by user interrupt), then the best parameter
+  // values found so far are not necessarily what nlopt_optimize returns
+  if ((result == NLOPT_FORCED_STOP) && (bestStatisticVal < HUGE_VAL)) {
+    for (int i = 0; i < nParamsTot; i++)
+      paramVector[i] = bestParamVector[i];
+    finalStatisticVal = bestStatisticVal;
+  }
   if (verbose >= 0) {
     string interpretedResult;
     GetInterpretation_NM((int)result, interpretedResult);
-- 
2.43.0


From f4e6886bde172401d1c94397e3c39cefe734f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 47/59] fix: FITS images: check the size before allocating,
 check the second open, close files after errors

---
 core/image_io.cpp | 58 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index a70a213..f7f758b 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -90,6 +90,7 @@
 /* ------------------------ Include Files (Header Files )--------------- */
 
 #include <stdlib.h>
+#include <limits.h>
 #include <math.h>
 #include <string>
 #include <vector>
@@ -120,10 +121,11 @@ static void PrintError( int status );
 bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
 {
   bool validImageFlag = false;
-  int  hduType, naxis;
+  int  hduType = ANY_HDU;
+  int  naxis = 0;
 
   fits_movabs_hdu(imageFile_ptr, hduNum, &hduType, status_ptr);
-  if (hduType == IMAGE_HDU) {   /* primary array or image HDU */
+  if ((*status_ptr == 0) && (hduType == IMAGE_HDU)) {   /* primary array or image HDU */
     fits_get_img_dim(imageFile_ptr, &naxis, status_ptr);
     if (naxis == 2)
       validImageFlag = true;
@@ -132,6 +134,30 @@ bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
 }
 
 
+/* ---------------- FUNCTION: ValidImageSize --------------------------- */
+/// Returns true if the image has at least one pixel, and its dimensions (and those
+/// of an array holding it) can be represented
+static bool ValidImageSize( const long *naxes, const std::string& filename )
+{
+  if ((naxes[0] < 1) || (naxes[1] < 1) || (naxes[0] > INT_MAX) || (naxes[1] > INT_MAX) 
+  		|| (naxes[0] > LONG_MAX / (long)sizeof(double) / naxes[1])) {
+    fprintf(stderr, "\n*** WARNING: Invalid image size (%ld x %ld pixels) in FITS file \"%s\"!\n", 
+    		naxes[0], naxes[1], filename.c_str());
+    return false;
+  }
+  return true;
+}
+
+
+/* ---------------- FUNCTION: CloseAfterError -------------------------- */
+/// Closes a FITS file after an error (with which CFITSIO calls would do nothing)
+static void CloseAfterError( fitsfile *imfile_ptr )
+{
+  int  closeStatus = 0;
+  fits_close_file(imfile_ptr, &closeStatus);
+}
+
+
 /* ---------------- FUNCTION: CheckForImage ---------------------------- */
 ///    Given the filename of a FITS image, this function opens the file and
 /// checks the first header-data unit to see if it is a 2D image. If it is
@@ -165,7 +191,7 @@ int CheckForImage( const std::string filename, const bool verbose )
   if (CheckHDUForImage(imfile_ptr, currentHDU, &status))
     validHDU = 1;
   
-  fits_close_file(imfile_ptr, &status);
+  CloseAfterError(imfile_ptr);
   if (validHDU < 0)
     fprintf(stderr, "\n*** WARNING: Unable to find valid 2D image in extension %d (HDU %d) of %s!\n", 
     		currentHDU - 1, currentHDU, filename.c_str());
@@ -200,6 +226,7 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   if (! CheckHDUForImage(imfile_ptr, currentHDU, &status)) {
     fprintf(stderr, "\n*** WARNING: Unable to find valid 2D image in extension %d (HDU %d) of %s!\n", 
     		currentHDU - 1, currentHDU, filename.c_str());
+    CloseAfterError(imfile_ptr);
     return std::make_tuple(n_columns, n_rows, -1);
   }  
 
@@ -209,6 +236,11 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
+    return std::make_tuple(n_columns, n_rows, -1);
+  }
+  if (! ValidImageSize(naxes, filename)) {
+    CloseAfterError(imfile_ptr);
     return std::make_tuple(n_columns, n_rows, -1);
   }
   if (verbose)
@@ -257,9 +289,14 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   // further operations
   validHDU_flag = CheckForImage(filename);
   if (validHDU_flag > 0)
-    fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
+    problems = fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
   else
     return nullptr;
+  if ( problems ) {
+    fprintf(stderr, "\n*** WARNING: Problems opening FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
+    PrintError(status);
+    return nullptr;
+  }
 
   /* get image size (n.b.: this is NAXIS1 and NAXIS2 *unless* image is stored in
      compressed form, in which case NAXISn describe the binary table holding it) */
@@ -267,6 +304,11 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
+    return nullptr;
+  }
+  if (! ValidImageSize(naxes, filename)) {
+    CloseAfterError(imfile_ptr);
     return nullptr;
   }
   if (verbose)
@@ -280,6 +322,12 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   
   // Read in the image data
   imageVector = fftw_alloc_real(nPixelsTot);
+  if (imageVector == nullptr) {
+    fprintf(stderr, "\n*** WARNING: Unable to allocate memory for image in FITS file \"%s\"!\n", 
+    		filename.c_str());
+    CloseAfterError(imfile_ptr);
+    return nullptr;
+  }
   // Undefined pixels are already NaN in ordinary floating-point images; in integer images
   // (BLANK keyword) and compressed images they are special values, which we replace by NaN
   int  bitpix = 0;
@@ -293,6 +341,8 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading pixel data from FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
+    fftw_free(imageVector);
     return nullptr;
   }
 
-- 
2.43.0


From c986001643d59170e14e62c158055f5b1529a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 48/59] fix: configuration files: refuse lines out of place
 instead of reading past the lists

---
 core/config_file_parser.cpp | 58 +++++++++++++++++++++++++++++++++----
 core/config_file_parser.h   |  1 +
 2 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 63df80f..c6b16aa 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -172,7 +172,7 @@ int AddParameterAndLimit( string& currentLine, vector<double>& parameterList,
         newParamLimit.limited[1] = 1;
         lowerLimit = strtod(newPieces[0].c_str(), nullptr);
         upperLimit = strtod(newPieces[1].c_str(), nullptr);
-        if (lowerLimit >= upperLimit) {
+        if (! (lowerLimit < upperLimit)) {   // (also true for NaN)
           fprintf(stderr, "*** WARNING: first parameter limit for \"%s\" (%g) must be < second limit (%g)!\n",
           				stringPieces[0].c_str(), lowerLimit, upperLimit);
           if (lowerLimit == upperLimit) {
@@ -181,7 +181,7 @@ int AddParameterAndLimit( string& currentLine, vector<double>& parameterList,
           fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumber);
           return -1;
         }
-        if ((paramVal < lowerLimit) || (paramVal > upperLimit)) {
+        if (! ((paramVal >= lowerLimit) && (paramVal <= upperLimit))) {
           fprintf(stderr, "*** WARNING: initial parameter value for \"%s\" (%g) must lie between the limits (%g,%g)!\n",
           				stringPieces[0].c_str(), paramVal, lowerLimit, upperLimit);
           fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumber);
@@ -297,6 +297,16 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
     i++;
   }
   
+  // Lines which belong to the function section cannot precede the first X0 line
+  if (functionSectionFound) {
+    for (i = 0; i < functionSectionStart; i++) {
+      if (LineHasKeyword(inputLines[i], "FUNCTION") || LineHasKeyword(inputLines[i], "Y0")) {
+        *badLineNumber = origLineNumbers[i];
+        return CONFIG_FILE_ERROR_LINEBEFOREX0;
+      }
+    }
+  }
+  
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
@@ -388,6 +398,9 @@ void ReportConfigError( const int errorCode, const int origLineNumber )
       fprintf(stderr, "\n*** ReadConfigFile: Bad parameter specification at line %d in configuration file!\n", origLineNumber);
       fprintf(stderr, "    (Parameter line should be: name, then initial numerical value (+ optionally \"fixed\" OR lower,upper numerical limits)\n");
       break;
+    case CONFIG_FILE_ERROR_LINEBEFOREX0:
+      fprintf(stderr, "\n*** ReadConfigFile: Line %d in configuration file should be preceded by an X0 line!\n", origLineNumber);
+      break;
     default:
       fprintf(stderr, "\n*** ReadConfigFile: Unknown error code!\n");
       break;
@@ -423,8 +436,29 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  functionNumber = 0;
   int  paramNumber = 0;
   parameterLimitsFound = false;
-  while (i < (int)inputLines.size()) {
+  int  nLines = (int)inputLines.size();
+  while (i < nLines) {
+    // every parameter line must have a name and a numerical value (+ optional limits),
+    // and must belong to a function set which starts with "X0"
+    string  lineCopy = inputLines[i];
+    bool  isFunctionLine = LineHasKeyword(inputLines[i], "FUNCTION");
+    bool  isOptionalParamsMarker = LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_START)
+    								|| LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_END);
+    if ((! isOptionalParamsMarker) && (! ValidParameterLine(lineCopy, isFunctionLine || inOptionalParams))) {
+      ReportConfigError(CONFIG_FILE_ERROR_BADPARAMLINE, origLineNumbers[i]);
+      return -1;
+    }
+    if ((fsetStartIndices.size() == 0) && (! LineHasKeyword(inputLines[i], "X0"))) {
+      fprintf(stderr, "*** WARNING: Function section must start with an 'X0' line (input line %d)!\n",
+      			origLineNumbers[i]);
+      return -1;
+    }
     if (LineHasKeyword(inputLines[i], "X0")) {
+      if ((fsetStartIndices.size() > 0) && (fsetStartIndices.back() == functionNumber)) {
+        fprintf(stderr, "*** WARNING: No FUNCTION lines found for the function set preceding input line %d!\n",
+        			origLineNumbers[i]);
+        return -1;
+      }
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -439,10 +473,15 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (! LineHasKeyword(inputLines[i], "Y0")) {
+        if ((i >= nLines) || (! LineHasKeyword(inputLines[i], "Y0"))) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
+          return -1;
+        }
+        lineCopy = inputLines[i];
+        if (! ValidParameterLine(lineCopy, false)) {
+          ReportConfigError(CONFIG_FILE_ERROR_BADPARAMLINE, origLineNumbers[i]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -470,6 +509,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
 
+    if (fsetStartIndices.back() == functionNumber) {
+      fprintf(stderr, "*** WARNING: Input line %d must be preceded by a FUNCTION line!\n",
+      			origLineNumbers[i]);
+      return -1;
+    }
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
     if (LineHasKeyword(inputLines[i], OPTIONAL_PARAMS_START)) {
@@ -501,6 +545,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
     }
   }
   
+  if ((fsetStartIndices.size() > 0) && (fsetStartIndices.back() == functionNumber)) {
+    fprintf(stderr, "*** WARNING: No FUNCTION lines found for the last function set!\n");
+    return -1;
+  }
   return 0;
 }
 
diff --git a/core/config_file_parser.h b/core/config_file_parser.h
index 30ee445..8212b6d 100644
--- a/core/config_file_parser.h
+++ b/core/config_file_parser.h
@@ -19,6 +19,7 @@ const int CONFIG_FILE_ERROR_NOFUNCSECTION = -1;
 const int CONFIG_FILE_ERROR_NOFUNCTIONS   = -2;
 const int CONFIG_FILE_ERROR_INCOMPLETEXY  = -3;
 const int CONFIG_FILE_ERROR_BADPARAMLINE  = -4;
+const int CONFIG_FILE_ERROR_LINEBEFOREX0  = -5;
 
 typedef struct {
   vector<string> optionNames;
-- 
2.43.0


From a1d006fee310597971a6a41535b687d2507bdc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 49/59] fix: image-info files: check the numbers and report
 errors to the caller

---
 core/imageparams_file_parser.cpp | 143 ++++++++++++++++++++++---------
 core/imageparams_file_parser.h   |   9 +-
 core/makemultimages_main.cpp     |   7 +-
 3 files changed, 112 insertions(+), 47 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 7a5a309..a7f6dd6 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -24,6 +24,8 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <limits.h>  // for strtol
+#include <math.h>
+#include <cmath>   // for std::isfinite
 #include <strings.h>  // for memset
 #include <tuple>
 
@@ -299,9 +301,54 @@ std::tuple<double *, int> GetImageDescriptionParams( const vector<ImageInfo> ima
 
 
 
+// Converts a string to a number. Returns true if the whole string is a valid
+// (finite) number; otherwise, prints a message and returns false.
+static bool GetNumber( const string& parameterName, const string& valueString, double& value )
+{
+  value = strtod(valueString.c_str(), nullptr);
+  if ((! IsNumeric(valueString.c_str())) || (! std::isfinite(value))) {
+    fprintf(stderr, "*** ERROR: value for \"%s\" (\"%s\") in image-info file is not a valid number!\n",
+    			parameterName.c_str(), valueString.c_str());
+    return false;
+  }
+  return true;
+}
+
+// Same as above, but for integer values
+static bool GetInteger( const string& parameterName, const string& valueString, int& value )
+{
+  double  numericVal;
+  if (! GetNumber(parameterName, valueString, numericVal))
+    return false;
+  if ((numericVal != floor(numericVal)) || (fabs(numericVal) > INT_MAX)) {
+    fprintf(stderr, "*** ERROR: value for \"%s\" (\"%s\") in image-info file is not a valid integer!\n",
+    			parameterName.c_str(), valueString.c_str());
+    return false;
+  }
+  value = (int)numericVal;
+  return true;
+}
+
+// Same as above, but for pairs of comma-separated integer values
+static bool GetTwoIntegers( const string& parameterName, const string& valueString, int& value1,
+							int& value2 )
+{
+  vector<string> subPieces;
+  SplitString(valueString, subPieces, ",");
+  if (subPieces.size() != 2) {
+    fprintf(stderr, "*** ERROR: value for \"%s\" (\"%s\") in image-info file is not a pair of integers!\n",
+    			parameterName.c_str(), valueString.c_str());
+    return false;
+  }
+  return GetInteger(parameterName, subPieces[0], value1) && GetInteger(parameterName, subPieces[1], value2);
+}
+
+
 // status = 0 for just a parameter value, 1 for fixed parameter,
 // 2 for parameter value and limit(s), or -1 for problem
-std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
+// If checkLimits is false, problems with the limits are not considered errors (as for
+// images which are not fit)
+std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine, bool checkLimits )
 {
   double  paramVal;
   double  lowerLimit, upperLimit;
@@ -313,7 +360,7 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
   stringPieces.clear();
   SplitString(theLine, stringPieces);
   // first piece is parameter name, which we ignore; second piece is initial value
-  paramVal = strtod(stringPieces[1].c_str(), nullptr);
+  bool  valueOK = GetNumber(stringPieces[0], stringPieces[1], paramVal);
 
   // OK, now we create a new mp_par structure and check for possible parameter limits
 //   bzero(&newParamLimit, sizeof(mp_par));
@@ -325,15 +372,19 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
       newParamLimit.fixed = 1;
       status = 1;
     } else {
-      if (extraPiece.find(',', 0) != string::npos) {
+      SplitString(extraPiece, newPieces, ",");
+      if ((newPieces.size() != 2) || (! IsNumeric(newPieces[0].c_str())) || (! IsNumeric(newPieces[1].c_str()))) {
+        fprintf(stderr, "*** ERROR: limits for \"%s\" (\"%s\") in image-info file should be \"fixed\" or lower,upper numerical limits!\n",
+          				stringPieces[0].c_str(), extraPiece.c_str());
+        status = -1;
+      }
+      else {
         status = 2;
-        newPieces.clear();
-        SplitString(extraPiece, newPieces, ",");
         newParamLimit.limited[0] = 1;
         newParamLimit.limited[1] = 1;
         lowerLimit = strtod(newPieces[0].c_str(), nullptr);
         upperLimit = strtod(newPieces[1].c_str(), nullptr);
-        if (lowerLimit >= upperLimit) {
+        if (! (lowerLimit < upperLimit)) {
           fprintf(stderr, "*** WARNING: first parameter limit for \"%s\" (%g) must be < second limit (%g)!\n",
           				stringPieces[0].c_str(), lowerLimit, upperLimit);
           if (lowerLimit == upperLimit) {
@@ -341,7 +392,7 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
           }
           status = -1;
         }
-        if ((paramVal < lowerLimit) || (paramVal > upperLimit)) {
+        if (! ((paramVal >= lowerLimit) && (paramVal <= upperLimit))) {
           fprintf(stderr, "*** WARNING: initial parameter value for \"%s\" (%g) must lie between the limits (%g,%g)!\n",
           				stringPieces[0].c_str(), paramVal, lowerLimit, upperLimit);
           status = -1;
@@ -352,6 +403,10 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
     }
   }
 
+  if (! valueOK)
+    status = -1;
+  else if ((status < 0) && (! checkLimits))
+    status = 0;
   return std::make_tuple(paramVal, newParamLimit, status);
 }
 
@@ -362,38 +417,42 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
 // appropriate info in the input ImageInfo object
 // We assume that theLine has had leading and trailing whitespace (including
 // newlines) removed before this function is called.
-int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
+// Returns 0 for success, -1 if the line had an invalid value or invalid limits
+int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo, bool checkLimits )
 {
   double  numericVal;
-  int  status;
+  int  status = 0;
+  bool  valueOK = true;
   vector<string>  stringPieces;
   mp_par  paramLimits;
   string  parameterName, stringVal;
   
   SplitString(theLine, stringPieces);
   parameterName = stringPieces[0];
+  if (stringPieces.size() < 2)   // IMAGE_START, etc.
+    return 0;
     
   // floating-point values
   if (parameterName == PARAMETER_NAME_GAIN) 
-    imageInfo.gain = strtod(stringPieces[1].c_str(), nullptr);
+    valueOK = GetNumber(parameterName, stringPieces[1], imageInfo.gain);
       
   else if (parameterName == PARAMETER_NAME_READNOISE) 
-    imageInfo.readNoise = strtod(stringPieces[1].c_str(), nullptr);
+    valueOK = GetNumber(parameterName, stringPieces[1], imageInfo.readNoise);
       
   else if (parameterName == PARAMETER_NAME_ORIGINAL_SKY) 
-    imageInfo.originalSky = strtod(stringPieces[1].c_str(), nullptr);
+    valueOK = GetNumber(parameterName, stringPieces[1], imageInfo.originalSky);
       
   else if (parameterName == PARAMETER_NAME_EXPTIME) 
-    imageInfo.expTime = strtod(stringPieces[1].c_str(), nullptr);
+    valueOK = GetNumber(parameterName, stringPieces[1], imageInfo.expTime);
       
   else if (parameterName == PARAMETER_NAME_WEIGHT) 
-    imageInfo.weight = strtod(stringPieces[1].c_str(), nullptr);
+    valueOK = GetNumber(parameterName, stringPieces[1], imageInfo.weight);
 
 
   // Special cases of parameters with optional limits or fixed status
   
   else if (parameterName == PARAMETER_NAME_PIXEL_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkLimits);
     imageInfo.pixelScale = numericVal;
     // special rule for PIXEL_SCALE: fixed unless limits were explicitly set
     if (status == 2)
@@ -403,7 +462,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_IMAGE_PA) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkLimits);
     imageInfo.rotation = numericVal;
     // special rule for IMAGE_PA: fixed unless limits were explicitly set
     if (status == 2)
@@ -413,19 +472,19 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_FLUX_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkLimits);
     imageInfo.intensityScale = numericVal;
     imageInfo.intensityScale_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_X0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkLimits);
     imageInfo.x0 = numericVal;
     imageInfo.x0_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_Y0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine, checkLimits);
     imageInfo.y0 = numericVal;
     imageInfo.y0_limitInfo = paramLimits;
   }
@@ -433,27 +492,19 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   
   // integer values
   else if (parameterName == PARAMETER_NAME_NCOLS)
-    imageInfo.nColumns = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    valueOK = GetInteger(parameterName, stringPieces[1], imageInfo.nColumns);
 
   else if (parameterName == PARAMETER_NAME_NROWS) 
-    imageInfo.nRows = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    valueOK = GetInteger(parameterName, stringPieces[1], imageInfo.nRows);
 
-  else if (parameterName == PARAMETER_NAME_NROWS_NCOLS) {
-    vector<string> subPieces;
-    SplitString(stringPieces[1], subPieces, ",");
-    imageInfo.nRows = (int)strtol(subPieces[0].c_str(), nullptr, 0);
-    imageInfo.nColumns = (int)strtol(subPieces[1].c_str(), nullptr, 0);
-  }
+  else if (parameterName == PARAMETER_NAME_NROWS_NCOLS)
+    valueOK = GetTwoIntegers(parameterName, stringPieces[1], imageInfo.nRows, imageInfo.nColumns);
 
-  else if (parameterName == PARAMETER_NAME_NCOLS_NROWS) {
-    vector<string> subPieces;
-    SplitString(stringPieces[1], subPieces, ",");
-    imageInfo.nColumns = (int)strtol(subPieces[0].c_str(), nullptr, 0);
-    imageInfo.nRows = (int)strtol(subPieces[1].c_str(), nullptr, 0);
-  }
+  else if (parameterName == PARAMETER_NAME_NCOLS_NROWS)
+    valueOK = GetTwoIntegers(parameterName, stringPieces[1], imageInfo.nColumns, imageInfo.nRows);
 
   else if (parameterName == PARAMETER_NAME_NCOMBINED)
-    imageInfo.nCombined = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    valueOK = GetInteger(parameterName, stringPieces[1], imageInfo.nCombined);
 
   
   // string values
@@ -479,7 +530,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 
   // Special cases of oversampled PSF specifications
   else if (parameterName == PARAMETER_NAME_OVERPSF_SCALE) {
-    int osampleScale = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    int osampleScale = 0;
+    valueOK = GetInteger(parameterName, stringPieces[1], osampleScale);
     imageInfo.psfOversamplingScales.push_back(osampleScale);
     imageInfo.nOversamplingScales += 1;
   }
@@ -520,6 +572,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
     ; // handle error
   }
   
+  if ((! valueOK) || (status < 0))
+    return -1;
   return 0;
 }
 
@@ -530,8 +584,10 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 // and populates the input vector of ImageInfo objects, one for each specified
 // image.
 // Returns 0 for standard operation (no per-image functions found); returns 
-// index (> 0) for first line of per-image-function section if it exists
-int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList )
+// index (> 0) for first line of per-image-function section if it exists, or -1
+// if there was a problem with one of the lines
+int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList,
+						bool checkLimits )
 {
   ImageInfo newImageInfo = ImageInfo();
   int  nLines = lines.size();
@@ -542,7 +598,8 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
       returnVal = i;
       break;
     }
-    StoreInfoFromLine(lines[i], newImageInfo);
+    if (StoreInfoFromLine(lines[i], newImageInfo, checkLimits) < 0)
+      return -1;
   }
   imageInfoList.push_back(newImageInfo);
   
@@ -556,7 +613,7 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
 //    Number of images specified in the file (nImages)
 //    Vector of ImageInfo objects (one per specified image) 
 int ReadImageParamsFile( const string& configFileName, int& nImages,
-						vector<ImageInfo>& imageInfoList )
+						vector<ImageInfo>& imageInfoList, bool checkLimits )
 {
   ifstream  inputFileStream;
   string  inputLine;
@@ -629,7 +686,9 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     for (i = currentStartIndex; i < currentEndIndex; i++)
       currentImageLines.push_back(inputLines[i]);
     // start of per-image functions section is relative to currentImageLines (0 = no such section)
-    imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList);
+    imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList, checkLimits);
+    if (imageFunctionsOffset < 0)
+      return -1;
     // process per-image function lines, if they exist
     if (imageFunctionsOffset > 0) {
       // start with global location of current per-image functions section
@@ -644,10 +703,10 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       vector< map<string, string> >  optionalParams;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
 						funcLabelList, funcParams, funcParamLimits, funcSetStartIndices,
-						paramLimitsExist, functionSectionLineNumbers, false,
+						paramLimitsExist, functionSectionLineNumbers, checkLimits,
 						optionalParams);
 	  if (status < 0) {
-	    fprintf(stderr, "ERROR MESSAGE ABOUT FAILURE IN ParseFunctionSection\n");
+	    fprintf(stderr, "*** ERROR: Problem with per-image functions for image %d in image-info file!\n", k + 1);
 	    return -1;
 	  }
 	  imageInfoList[k].perImageFuncNames = funcNameList;
diff --git a/core/imageparams_file_parser.h b/core/imageparams_file_parser.h
index e5e8d2d..06915a0 100644
--- a/core/imageparams_file_parser.h
+++ b/core/imageparams_file_parser.h
@@ -26,7 +26,7 @@ const int  IMAGEPARAMS_FILE_ERROR_BADLINE = -4;
 bool VetInputLines( const vector<string> &lines, const vector<int> &lineNumbers,
 					vector<int> &errorCodes, vector<int> &badLineNumbers );
 
-std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine );
+std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine, bool checkLimits=true );
 
 // two versions of this: first is simpler version for use by makemultimates
 // (no parameter limit info), second is for use by multimfit (includes parsing
@@ -38,12 +38,13 @@ std::tuple<double *, int>  GetImageDescriptionParams( const vector<ImageInfo> im
 											vector<mp_par>& imageParamLimits,
 											bool& paramLimitsExist );
 
-int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo );
+int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo, bool checkLimits=true );
 
-int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList );
+int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList,
+						bool checkLimits=true );
 
 int ReadImageParamsFile( const string& configFileName, int& nImages,
-						vector<ImageInfo>& imageInfoList );
+						vector<ImageInfo>& imageInfoList, bool checkLimits=true );
 
 
 #endif  // _IMAGEPARAMS_FILE_PARSER_H_
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 1278140..2236621 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -172,7 +172,12 @@ int main( int argc, char *argv[] )
              options->imageInfoFile.c_str());
       return -1;
     }
-    status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect);
+    status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect, false);
+    if (status < 0) {
+      fprintf(stderr, "\n*** ERROR: Problems parsing image-info file \"%s\"!\n\n", 
+             options->imageInfoFile.c_str());
+      return -1;
+    }
     std::tie(imageDescParamsVect, nImageDescParams) = GetImageDescriptionParams(imageInfoVect);
     printf("Image-description params from image-info file \"%s\": ", options->imageInfoFile.c_str());
     for (int i = 0; i < nImageDescParams; i++)
-- 
2.43.0


From 777ea33e859261bc5391e1c122a8a68c7cfd35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 50/59] fix: check sizes of images, PSFs and oversampled
 regions and the number of threads

---
 core/model_object.cpp       | 61 +++++++++++++++++++++++++++++++------
 core/model_object.h         |  4 +--
 core/setup_model_object.cpp | 12 ++++++--
 3 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index fb12ac3..4da3b1d 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -52,6 +52,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <assert.h>
+#include <limits.h>
 //#include <math.h>
 #include <cmath>
 #include <iostream>
@@ -151,6 +152,7 @@ ModelObject::ModelObject( )
   oversampledRegionsExist = false;
   zeroPointSet = false;
   pointSourcesPresent = false;
+  oversampledPsfTooSmall = false;
   
   nFunctions = 0;
   nGlobalFunctions = 0;
@@ -294,6 +296,10 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
+    if (oversampledPsfTooSmall) {
+      fprintf(stderr, "** ERROR: Oversampled PSF image is too small for interpolation with PointSource functions!\n");
+      return -1;
+    }
     string interpName = newFunctionObj_ptr->GetInterpolationType();
     int interpType = interpolationMap[interpName];
     if (psfInterpolators.count(interpType) == 0) {
@@ -491,7 +497,19 @@ int ModelObject::AddImageDataVector( double *pixelVector, int nImageColumns,
 int ModelObject::SetupModelImage( int nImageColumns, int nImageRows )
 {
   int  result = 0;
-  assert( (nImageColumns >= 1) && (nImageRows >= 1) );
+
+  long  nColumnsTot = nImageColumns;
+  long  nRowsTot = nImageRows;
+  if (doConvolution) {
+    nColumnsTot += 2*(long)nPSFColumns;
+    nRowsTot += 2*(long)nPSFRows;
+  }
+  if ((nImageColumns < 1) || (nImageRows < 1) || (nColumnsTot > INT_MAX) || (nRowsTot > INT_MAX)
+  		|| (nColumnsTot * nRowsTot > INT_MAX)) {
+    fprintf(stderr, "*** ERROR: Invalid size (%d columns, %d rows) for model image!\n", nImageColumns,
+    		nImageRows);
+    return -1;
+  }
   
   nDataColumns = nImageColumns;
   nDataRows = nImageRows;
@@ -532,12 +550,16 @@ int ModelObject::SetupModelImage( int nImageColumns, int nImageRows )
 
 /* ---------------- PUBLIC METHOD: AddImageCharacteristics ------------ */
 
-void ModelObject::AddImageCharacteristics( double imageGain, double readoutNoise, double expTime, 
+int ModelObject::AddImageCharacteristics( double imageGain, double readoutNoise, double expTime, 
 										int nCombinedImages, double originalSkyBackground )
 {
-  assert( (imageGain > 0.0) && (readoutNoise >= 0.0) );
-  assert( (expTime > 0.0) && (nCombinedImages >= 1) );
-  assert( (originalSkyBackground >= 0.0) );
+  // (the comparisons are false for NaN)
+  if (! ((imageGain > 0.0) && (readoutNoise >= 0.0) && (expTime > 0.0) && (nCombinedImages >= 1)
+  		&& (originalSkyBackground >= 0.0))) {
+    fprintf(stderr, "*** ERROR: Invalid image characteristics: gain, exposure time, and number of combined\n");
+    fprintf(stderr, "    images must be > 0; read noise and original sky must be >= 0!\n");
+    return -1;
+  }
 
   gain = imageGain;
   readNoise = readoutNoise;
@@ -547,6 +569,7 @@ void ModelObject::AddImageCharacteristics( double imageGain, double readoutNoise
 
   effectiveGain = gain * exposureTime * nCombined;
   readNoise_adu_squared = readNoise*readNoise/(effectiveGain*effectiveGain);
+  return 0;
 }
 
 
@@ -889,6 +912,7 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   int  x1, x2, y1, y2;
   double  *psfPixels_osamp;
   int  deltaX, deltaY, nCols_osamp, nRows_osamp;
+  double  pixelSum = 0.0;
   int  status = 0;
   
   nColumns_psf = oversampledPsfInfo->GetNColumns();
@@ -899,8 +923,15 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   psfPixels_osamp = oversampledPsfInfo->GetPsfPixels();
   
   assert( (nPixels >= 1) && (nColumns_psf >= 1) && (nRows_psf >= 1) );
-  assert( (x1 < x2) && (y1 < y2) );
-  assert( (oversampleScale >= 1) );
+  if ((x1 > x2) || (y1 > y2) || (x2 < 1) || (y2 < 1) || (x1 > nDataColumns) || (y1 > nDataRows)) {
+    fprintf(stderr, "** ERROR: Oversampled region (\"%s\") is not a valid region within the image!\n",
+    		oversampledPsfInfo->GetRegionString().c_str());
+    return -1;
+  }
+  if (oversampleScale < 1) {
+    fprintf(stderr, "** ERROR: Oversampling scale (%d) must be >= 1!\n", oversampleScale);
+    return -1;
+  }
   // assertion to check that nModelColumns and nModelRows *have* been set to good values
   assert( (nModelColumns > 0) && (nModelRows > 0) );
 
@@ -909,6 +940,11 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
       fprintf(stderr, "** ERROR: Oversampled PSF image has one or more non-finite values!\n");
       return -1;
     }
+    pixelSum += psfPixels_osamp[i];
+  }
+  if ((oversampledPsfInfo->GetNormalizationFlag()) && (pixelSum <= 0.0)) {
+    fprintf(stderr, "** ERROR: Sum of oversampled-PSF pixel values is <= 0 -- PSF cannot be normalized!\n");
+    return -1;
   }
 
   // restrict region to be oversampled (in data or output image) to lie within image bounds
@@ -923,8 +959,13 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   // size of oversampling region
   deltaX = x2 - x1 + 1;
   deltaY = y2 - y1 + 1;
-  assert( deltaX > 0 );
-  assert( deltaY > 0 );
+  long  nColumnsTot = (long)oversampleScale * deltaX + 2*(long)nColumns_psf;
+  long  nRowsTot = (long)oversampleScale * deltaY + 2*(long)nRows_psf;
+  if ((nColumnsTot > INT_MAX) || (nRowsTot > INT_MAX) || (nColumnsTot * nRowsTot > INT_MAX)) {
+    fprintf(stderr, "** ERROR: Oversampled region (\"%s\", with oversampling scale = %d) is too large!\n",
+    		oversampledPsfInfo->GetRegionString().c_str(), oversampleScale);
+    return -1;
+  }
   nCols_osamp = oversampleScale * deltaX;
   nRows_osamp = oversampleScale * deltaY;
   
@@ -951,6 +992,8 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   }
   oversampledRegionsVect.push_back(oversampledRegion);
   nOversampledRegions++;
+  if ((nPSFColumns_osamp < 4) || (nPSFRows_osamp < 4))
+    oversampledPsfTooSmall = true;
   
   return 0;
 }
diff --git a/core/model_object.h b/core/model_object.h
index 59dfe80..71b4bc1 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -79,7 +79,7 @@ class ModelObject
     int AddImageDataVector( double *pixelVector, int nImageColumns, int nImageRows );
 
 	// 2D only
-    void AddImageCharacteristics( double imageGain, double readoutNoise, double expTime, 
+    int AddImageCharacteristics( double imageGain, double readoutNoise, double expTime, 
     							int nCombinedImages, double originalSkyBackground );
     
     // 2D only
@@ -299,7 +299,7 @@ class ModelObject
     bool  modelImageSetupDone;
     bool  modelImageComputed;
     bool  weightValsSet, maskExists, doBootstrap, bootstrapIndicesAllocated;
-    bool  doConvolution, pointSourcesPresent;
+    bool  doConvolution, pointSourcesPresent, oversampledPsfTooSmall;
     bool  modelErrors, dataErrors, externalErrorVectorSupplied;
     bool  useCashStatistic, poissonMLR;
     bool  deviatesVectorAllocated;   // for chi-squared calculations
diff --git a/core/setup_model_object.cpp b/core/setup_model_object.cpp
index 9d64ca8..1139b77 100644
--- a/core/setup_model_object.cpp
+++ b/core/setup_model_object.cpp
@@ -47,6 +47,10 @@ ModelObject* SetupModelObject( std::shared_ptr<OptionsBase> options, vector<int>
   if (options->debugLevel > 0)
     printf("\nSetupModelObject: Setting ModelObject debug level to %d\n\n", options->debugLevel);
 
+  if ((options->maxThreadsSet) && (options->maxThreads < 1)) {
+    fprintf(stderr, "*** ERROR: maximum number of threads (%d) must be >= 1!\n\n", options->maxThreads);
+    exit(-1);
+  }
   if (options->maxThreadsSet)
     newModelObj->SetMaxThreads(options->maxThreads);
   newModelObj->SetDebugLevel(options->debugLevel);
@@ -58,7 +62,7 @@ ModelObject* SetupModelObject( std::shared_ptr<OptionsBase> options, vector<int>
   if (options->psfImagePresent) {
     nColumns_psf = nColumnsRowsVector[2];
     nRows_psf = nColumnsRowsVector[3];
-    nPixels_psf = nColumns_psf * nRows_psf;
+    nPixels_psf = (long)nColumns_psf * (long)nRows_psf;
     status = newModelObj->AddPSFVector(nPixels_psf, nColumns_psf, nRows_psf, psfPixels,
     									options->normalizePSF);
     if (status < 0) {
@@ -86,8 +90,12 @@ ModelObject* SetupModelObject( std::shared_ptr<OptionsBase> options, vector<int>
       fprintf(stderr, "*** ERROR: Failure in ModelObject::AddImageDataVector!\n\n");
       exit(-1);
     }
-    newModelObj->AddImageCharacteristics(options->gain, options->readNoise, options->expTime, 
+    status = newModelObj->AddImageCharacteristics(options->gain, options->readNoise, options->expTime, 
     						options->nCombined, options->originalSky);
+    if (status < 0) {
+      fprintf(stderr, "*** ERROR: Failure in ModelObject::AddImageCharacteristics!\n\n");
+      exit(-1);
+    }
   }
 
   // Add oversampled PSF image vector(s) and corresponding info, if present
-- 
2.43.0


From 095144102a6336dc80517568c021f22da46c0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 51/59] fix: EdgeOnDisk: no GSL abort for extreme r/h

---
 function_objects/func_edge-on-disk.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_edge-on-disk.cpp b/function_objects/func_edge-on-disk.cpp
index 84e9936..f68b250 100644
--- a/function_objects/func_edge-on-disk.cpp
+++ b/function_objects/func_edge-on-disk.cpp
@@ -92,6 +92,10 @@ const double  DEG2RAD = 0.017453292519943295;
 const int  SUBSAMPLE_R = 10;
 
 const double  COSH_LIMIT = 100.0;
+// scaled-radius limits for the modified Bessel function K_1 (GSL stops the program if K_1
+// underflows or overflows); x*K_1(x) is = 1 or 0 [to within machine precision] outside them
+const double  BESSEL_LOWER_LIMIT = 1.0e-10;
+const double  BESSEL_UPPER_LIMIT = 700.0;
 
 const char EdgeOnDisk::className[] = "EdgeOnDisk";
 
@@ -170,7 +174,14 @@ double EdgeOnDisk::CalculateIntensity( double r, double z )
     I_radial = Sigma_00;
   else {
     double  scaledR = r/h;
-    I_radial = Sigma_00 * scaledR * gsl_sf_bessel_K1(scaledR);
+    if (! (scaledR > 0.0))   // negative or undefined scale length
+      I_radial = NAN;
+    else if (scaledR < BESSEL_LOWER_LIMIT)
+      I_radial = Sigma_00;
+    else if (scaledR > BESSEL_UPPER_LIMIT)
+      I_radial = 0.0;
+    else
+      I_radial = Sigma_00 * scaledR * gsl_sf_bessel_K1(scaledR);
   }
 
   // if combination of n*z/z_0 is large enough, switch to simple exponential,
-- 
2.43.0


From 5d1891f6f0f7d128952e642d57153742fa7de3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 52/59] fix: refuse malformed sections, numbers and DE fits
 without limits

---
 core/imfit_main.cpp     |  8 +++++
 core/mcmc_main.cpp      |  4 +++
 core/multimfit_main.cpp |  8 +++++
 core/utilities.cpp      | 80 ++++++++++++++++++++++-------------------
 4 files changed, 63 insertions(+), 37 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index ebc1a8e..14233c9 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -209,6 +209,10 @@ int main(int argc, char *argv[])
            nColumns, nRows, nPixels_tot);
   // Determine X0,Y0 pixel offset values if user specified an image section
   std::tie(X0_offset, Y0_offset) = DetermineImageOffset(options->imageFileName);
+  if ((X0_offset < 0) || (Y0_offset < 0)) {
+    fprintf(stderr, "\n*** ERROR: Invalid image section in \"%s\"!\n\n", options->imageFileName.c_str());
+    exit(-1);
+  }
 
   // Get (and check) mask and/or error images
   std::tie(allMaskPixels, allErrorPixels, status) = GetMaskAndErrorImages(nColumns, nRows, 
@@ -385,6 +389,10 @@ int main(int argc, char *argv[])
     							paramsVect, parameterInfo, theModel, options->ftol, paramLimitsExist, 
     							options->verbose, &resultsFromSolver, options->nloptSolverName,
     							options->rngSeed, options->useLHS);
+    if ((options->solver == DIFF_EVOLN_SOLVER) && (fitStatus < 0)) {
+      fprintf(stderr, "*** ERROR: Unable to do the fit with the Differential Evolution solver!\n\n");
+      exit(-1);
+    }
     gettimeofday(&timer_end_fit, nullptr);
 #ifndef NO_SIGNALS
     if (stopSignal_flag == 1)
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 7b34471..8fd3c9e 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -202,6 +202,10 @@ int main(int argc, char *argv[])
            nColumns, nRows, nPixels_tot);
   // Determine X0,Y0 pixel offset values if user specified an image section
   std::tie(X0_offset, Y0_offset) = DetermineImageOffset(options->imageFileName);
+  if ((X0_offset < 0) || (Y0_offset < 0)) {
+    fprintf(stderr, "\n*** ERROR: Invalid image section in \"%s\"!\n\n", options->imageFileName.c_str());
+    exit(-1);
+  }
 
 
   // Get (and check) mask and/or error images
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index a5e2db8..79a916a 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -340,6 +340,10 @@ int main(int argc, char *argv[])
     // Determine X0,Y0 pixel offset values if user specified an image section
     int  X0_offset_current, Y0_offset_current;
     std::tie(X0_offset_current, Y0_offset_current) = DetermineImageOffset(imageInfoVect[i].dataImageFileName);
+    if ((X0_offset_current < 0) || (Y0_offset_current < 0)) {
+      fprintf(stderr, "\n*** ERROR: Invalid image section in \"%s\"!\n\n", imageInfoVect[i].dataImageFileName.c_str());
+      return -1;
+    }
 
     // Get (and check) mask and/or error images
     if ((imageInfoVect[i].maskImage_present) || (imageInfoVect[i].errorImage_present)) {
@@ -720,6 +724,10 @@ int main(int argc, char *argv[])
     						paramsVect, parameterInfo, theMultImageModel, options->ftol, 
     						paramLimitsExist, options->verbose, &resultsFromSolver, 
     						options->nloptSolverName, options->rngSeed);
+    if ((options->solver == DIFF_EVOLN_SOLVER) && (fitStatus < 0)) {
+      fprintf(stderr, "*** ERROR: Unable to do the fit with the Differential Evolution solver!\n\n");
+      return -1;
+    }
     gettimeofday(&timer_end_fit, NULL);
 #ifndef NO_SIGNALS
     if (stopSignal_flag == 1)
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 8295dd5..8756736 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -21,6 +21,8 @@
 
 
 #include <ctype.h>   /* for isdigit() */
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>  /* for exit() */
 #include <time.h>
@@ -297,51 +299,42 @@ void StripBrackets( const string& inputFilename, string& strippedFilename )
 
 
 /* ---------------- FUNCTION: GetAllCoordsFromBracket() ------------- */
-// Given a string of the form "x1:x2,y1:y2", return x1, x2, y1, and y2
+// Given a string of the form "x1:x2,y1:y2", return x1, x2, y1, and y2.
+// Problems with the format are indicated by returning 0 for all the values.
 std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketString )
 {
-  vector<string>  sectionPieces, subsectionPieces_x, subsectionPieces_y;
-  const string star = string("*");
+  vector<string>  sectionPieces, subsectionPieces;
   string  copyBracketString;
-  int  x1, x2, y1, y2;
+  int  coords[4] = {0, 0, 0, 0};
 
-  // default values indicating errors:
-  x1 = x2 = y1 = y2 = 0;
-  
   // Trim away "[" at start, "]" at end if user accidentally included them
   string::size_type  startIndex = bracketString.find_first_not_of("[");
   string::size_type  endIndex = bracketString.find_last_not_of("]");
-  copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
+  if ((startIndex != string::npos) && (endIndex != string::npos) && (startIndex <= endIndex))
+    copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
-  // handle the x part of the section specification
-  if (sectionPieces[0] == star)
-    x1 = 1;
-  else {
-    SplitString(sectionPieces[0], subsectionPieces_x, ":");
-    if (subsectionPieces_x.size() != 2) {
-      fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
-      fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+  bool  formatOK = (sectionPieces.size() == 2);
+  for (int i = 0; formatOK && (i < 2); i++) {
+    SplitString(sectionPieces[i], subsectionPieces, ":");
+    formatOK = (subsectionPieces.size() == 2);
+    for (int j = 0; formatOK && (j < 2); j++) {
+      char  *endPtr;
+      errno = 0;
+      long  value = strtol(subsectionPieces[j].c_str(), &endPtr, 10);
+      while (isspace((unsigned char)*endPtr))
+        endPtr++;
+      formatOK = (endPtr != subsectionPieces[j].c_str()) && (*endPtr == '\0')
+      				&& (errno == 0) && (value >= -INT_MAX) && (value <= INT_MAX);
+      coords[2*i + j] = (int)value;
     }
-    x1 = atoi(subsectionPieces_x[0].c_str());
-    x2 = atoi(subsectionPieces_x[1].c_str());
   }
-  // handle the y part of the section specification
-  if (sectionPieces[1] == star)
-    y1 = 1;
-  else {
-    SplitString(sectionPieces[1], subsectionPieces_y, ":");
-    if (subsectionPieces_y.size() != 2) {
-      fprintf(stderr, "\nWARNING2: Incorrect image section format!\n");
-      fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      return std::make_tuple(0,0,0,0);
-    }
-    y1 = atoi(subsectionPieces_y[0].c_str());
-    y2 = atoi(subsectionPieces_y[1].c_str());
+  if (! formatOK) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", bracketString.c_str());
+    return std::make_tuple(0,0,0,0);
   }
-  
-  return std::make_tuple(x1, x2, y1, y2);
+  return std::make_tuple(coords[0], coords[1], coords[2], coords[3]);
 }
 
 /* ---------------- FUNCTION: GetStartCoordsFromBracket() ----------- */
@@ -437,16 +430,17 @@ std::tuple<int, int> GetPixelStartCoords( const string& inputFilename )
   sectionSubstring = inputFilename.substr(loc1 + 1, loc2 - loc1 - 1);
   SplitString(sectionSubstring, sectionPieces, ",");
   nPieces = sectionPieces.size();
-  // two valid possibilites: an image section (nPieces = 2) or an extension number
-  // (nPieces = 1)
-  if (nPieces == 2) {
+  // two valid possibilites: an image section (nPieces = 2, with ":" or "*") or an extension
+  // number or name (the latter optionally followed by a comma and the extension version)
+  if ((nPieces == 2) && (sectionSubstring.find_first_of(":*") != string::npos)) {
     // apparently an image section
     std::tie(xStart, yStart) = GetStartCoordsFromBracket(sectionSubstring, inputFilename);
     // we found a valid (or invalid) image section; ignore anything else...
     return std::make_tuple(xStart, yStart);
   }
   // if we don't have an image section, we need to have an image extension number
-  if ((nPieces != 1) || (sectionSubstring.size() < 1)) {
+  if ((nPieces > 2) || (sectionSubstring.size() < 1)
+  		|| (sectionSubstring.find_first_of(":*") != string::npos)) {
     fprintf(stderr, "\nWARNING: Incorrect image section format in \"%s\"!\n",
   					inputFilename.c_str());
     return std::make_tuple(0,0);
@@ -565,9 +559,21 @@ void CommandLineError( char errorString[] )
 //    0, 0.0, 0.1, .1
 //    -0.1, -.1?
 //    -1
+// The (rest of the) string must be a number as a whole (so "12abc" is not a number)
 bool NotANumber( const char theString[], int index, int restriction )
 {
   int  theCharacter = theString[index];
+  char  *endPtr;
+  
+  errno = 0;
+  if ((restriction == kAnyReal) || (restriction == kPosReal))
+    strtod(theString + index, &endPtr);
+  else
+    strtol(theString + index, &endPtr, 10);
+  if ((endPtr == theString + index) || (*endPtr != '\0'))
+    return true;
+  if ((errno == ERANGE) && (restriction != kAnyReal) && (restriction != kPosReal))
+    return true;
 
   switch (restriction) {
     case kAnyInt:
-- 
2.43.0


From e171900892a0cfabdf04eda014b4b80ef4057200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:40 +0000
Subject: [PATCH 53/59] fix: initialise the PSF size in makeimage and
 makemultimages

---
 core/makeimage_main.cpp      | 3 ++-
 core/makemultimages_main.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 97b16c0..98ec42c 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -98,7 +98,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
 int main( int argc, char *argv[] )
 {
   int  nColumns, nRows;
-  int  nColumns_psf, nRows_psf;
+  int  nColumns_psf = 0;
+  int  nRows_psf = 0;
   int  nParamsTot;
   int  status;
   double  *psfPixels = nullptr;
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 2236621..90fb4ba 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -108,7 +108,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MakeMultimagesOptions> the
 int main( int argc, char *argv[] )
 {
   int  nColumns_thisImage, nRows_thisImage;
-  int  nColumns_psf, nRows_psf;
+  int  nColumns_psf = 0;
+  int  nRows_psf = 0;
   int  nParamsTot;
   int  status;
   double  *psfPixels = nullptr;
-- 
2.43.0


From f64966d8fee86f210dc43c66587b6a4eb770cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:04 +0000
Subject: [PATCH 54/59] fix: Sersic::TotalFlux: no GSL abort or overflow for n
 <= 0 and large n

---
 function_objects/func_sersic.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/function_objects/func_sersic.cpp b/function_objects/func_sersic.cpp
index 4131c7e..526af90 100644
--- a/function_objects/func_sersic.cpp
+++ b/function_objects/func_sersic.cpp
@@ -245,9 +245,12 @@ bool Sersic::CanCalculateTotalFlux( )
 
 double Sersic::TotalFlux( )
 {
-  double  bn2n = pow(bn, 2.0*n);
-  double  L = 2*PI*n*exp(bn)*I_e*(r_e*r_e);
-  return  q*L*gsl_sf_gamma(2*n)/bn2n;
+  // undefined for n <= 0 (where gsl_sf_gamma would abort the program)
+  if (! (n > 0.0))
+    return NAN;
+  // logarithms avoid overflows for large n
+  double  logFactor = bn + lgamma(2*n) - 2.0*n*log(bn);
+  return  q*2*PI*n*I_e*(r_e*r_e)*exp(logFactor);
 }
 #endif
 
-- 
2.43.0


From 45b56e9458ab5070e3390dff9cc82b101374d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:31 +0000
Subject: [PATCH 55/59] fix: mpfit: stop when steps become non-finite

---
 solvers/mpfit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 413c966..f166d1d 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -881,6 +881,12 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
     ratio = actred/prered;
   }
 
+  // non-finite steps (e.g., due to overflows) would be rejected forever
+  if ((! isfinite(pnorm)) || (! isfinite(ratio))) {
+    info = MP_ERR_NAN;
+    goto L300;
+  }
+
   /*
    *            update the step bound.
    */
-- 
2.43.0


From 5da9c6606334dafc9a78a4b69aa1e7724978ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:02 +0000
Subject: [PATCH 56/59] fix: integers beyond the int range are refused; .5e3 is
 a number

---
 core/imfit_main.cpp     |  2 +-
 core/mcmc_main.cpp      |  2 +-
 core/multimfit_main.cpp |  2 +-
 core/utilities.cpp      | 17 ++++++++++++-----
 core/utilities_pub.h    |  1 +
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 14233c9..4499820 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -940,7 +940,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 8fd3c9e..f8c37bd 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -875,7 +875,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 79a916a..0649e44 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -1163,7 +1163,7 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MultimfitOptions> theOptio
     theOptions->maxThreadsSet = true;
   }
   if (optParser->OptionSet("seed")) {
-    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosInt)) {
+    if (NotANumber(optParser->GetTargetString("seed").c_str(), 0, kPosLong)) {
       printf("*** WARNING: RNG seed should be a positive integer!\n");
       delete optParser;
       exit(1);
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 8756736..419128b 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -565,15 +565,21 @@ bool NotANumber( const char theString[], int index, int restriction )
   int  theCharacter = theString[index];
   char  *endPtr;
   
+  long  intValue = 0;
+  
   errno = 0;
   if ((restriction == kAnyReal) || (restriction == kPosReal))
     strtod(theString + index, &endPtr);
   else
-    strtol(theString + index, &endPtr, 10);
+    intValue = strtol(theString + index, &endPtr, 10);
   if ((endPtr == theString + index) || (*endPtr != '\0'))
     return true;
-  if ((errno == ERANGE) && (restriction != kAnyReal) && (restriction != kPosReal))
-    return true;
+  if ((restriction != kAnyReal) && (restriction != kPosReal)) {
+    if (errno == ERANGE)
+      return true;
+    if ((restriction != kPosLong) && ((intValue > INT_MAX) || (intValue < INT_MIN)))
+      return true;
+  }
 
   switch (restriction) {
     case kAnyInt:
@@ -589,6 +595,7 @@ bool NotANumber( const char theString[], int index, int restriction )
         return (bool)( ! isdigit(theCharacter) );
     
     case kPosInt:
+    case kPosLong:
       if ( isdigit(theCharacter) && (theCharacter != '0') )
         return false;
       else
@@ -599,7 +606,7 @@ bool NotANumber( const char theString[], int index, int restriction )
         case '-':
           return NotANumber( theString, index + 1, kAnyReal );
         case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
+          return (bool)( ! isdigit((unsigned char)theString[index + 1]) );
         default:
           return (bool)( ! isdigit(theCharacter) );
       }  /* end switch (theCharacter) */
@@ -610,7 +617,7 @@ bool NotANumber( const char theString[], int index, int restriction )
         case '-':
           return true;
         case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
+          return (bool)( ! isdigit((unsigned char)theString[index + 1]) );
         default:
           return (bool)( ! isdigit(theCharacter) );
       }  /* end switch (theCharacter) */
diff --git a/core/utilities_pub.h b/core/utilities_pub.h
index 55f1c37..2383404 100644
--- a/core/utilities_pub.h
+++ b/core/utilities_pub.h
@@ -20,6 +20,7 @@ const int kNonzeroInt =    1;
 const int kPosInt     =    2;
 const int kAnyReal    =    3;
 const int kPosReal    =    4;
+const int kPosLong    =    5;   // positive integers possibly too large for int type
 
 /* constants for use with PrepareImageComments: */
 const int HDR_MAKEIMAGE = 0;
-- 
2.43.0


From 89ba8b9298c067996b836b6cbe44370f89c93c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 57/59] fix: image files: detect failed final flush, close file
 after errors

---
 core/image_io.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index f7f758b..cb2a3f0 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -90,6 +90,8 @@
 /* ------------------------ Include Files (Header Files )--------------- */
 
 #include <stdlib.h>
+#include <string.h>
+#include <sys/stat.h>
 #include <limits.h>
 #include <math.h>
 #include <string>
@@ -371,7 +373,7 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
 int SaveVectorAsImage( double *pixelVector, const std::string filename, int nColumns,
                          int nRows, std::vector<std::string> comments )
 {
-  fitsfile  *imfile_ptr;
+  fitsfile  *imfile_ptr = nullptr;
   std::string  finalFilename = "!";   // starting filename with "!" ==> clobber any existing file
   int  status = 0;
   int  problems = 0;
@@ -413,10 +415,32 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems writing pixel data to FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    if (imfile_ptr != nullptr) {
+      status = 0;
+      fits_close_file(imfile_ptr, &status);
+    }
     return -1;
   }
 
+  // Get the length the file should have (if it's an ordinary file), since CFITSIO ignores
+  // failures of the final flushing of buffers to the file (e.g., because the disk is full)
+  char  urlType[FLEN_FILENAME] = "";
+  char  rootName[FLEN_FILENAME] = "";
+  char  *filenameCopy = const_cast<char *>(filename.c_str());
+  LONGLONG  dataEnd = 0;
+  int  infoStatus = 0;
+  fits_url_type(imfile_ptr, urlType, &infoStatus);
+  fits_get_hduaddrll(imfile_ptr, nullptr, nullptr, &dataEnd, &infoStatus);
+  fits_parse_rootname(filenameCopy, rootName, &infoStatus);
+  
   problems = fits_close_file(imfile_ptr, &status);
+  if ((! problems) && (infoStatus == 0) && (strcmp(urlType, "file://") == 0)) {
+    struct stat  fileInfo;
+    if ((stat(rootName, &fileInfo) == 0) && ((LONGLONG)fileInfo.st_size < dataEnd)) {
+      status = WRITE_ERROR;
+      problems = 1;
+    }
+  }
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems closing FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
-- 
2.43.0


From d2995972d7eb998ec2ed0fb112e85cbfd1e41a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 58/59] fix: imfit-mcmc: report chain files that cannot be
 opened or written

---
 cdream/dream.cpp   | 19 ++++++++++++++++++-
 core/mcmc_main.cpp |  6 +++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 89e3705..95909c7 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -97,6 +97,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn);
   if (prevLines < 0) {
     fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
+    free(tempParams);
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
   if (p->appendFile) {
@@ -123,6 +124,13 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       chainFilename.str("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       oout[i] = new ofstream(chainFilename.str().c_str(), fmode);
+      if (! *oout[i]) {
+        fprintf(stderr, "\n*** ERROR: Unable to open MCMC output file \"%s\"!\n\n", chainFilename.str().c_str());
+        for (int k = 0; k <= i; ++k)
+          delete oout[k];
+        free(tempParams);
+        return DREAM_EXIT_ERROR;
+      }
       oout[i]->setf(ios::scientific, ios::floatfield);
       oout[i]->precision(12);
       for (int n = 0; n < p->outputHeaderLines.size(); n++)
@@ -164,6 +172,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   int gammaGeneration = 0;
   int delta;
   int numAccepted = 0;
+  bool writeErrors = false;
   int ireport = 0;
   double drand = 0.0;
 
@@ -485,12 +494,20 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   for (int i(0); i < p->numChains; ++i) {
     // close output files
-    if (oout[i] != nullptr) 
+    oout[i]->flush();
+    if (! *oout[i]) {
+      fprintf(stderr, "\n*** ERROR: Problems writing to MCMC output file \"%s.%d.txt\"!\n\n", 
+      		p->outputRootname.c_str(), i + 1);
+      writeErrors = true;
+    }
+    if (oout[i] != &cout) 
       delete oout[i];
   }
 
   // PE: memory cleanup of added stuff
   free(tempParams);
+  if (writeErrors)
+    return DREAM_EXIT_ERROR;
   
   
   if (p->verboseLevel > 0)
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index f8c37bd..af0e921 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -456,7 +456,11 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
+  status = dream(&dreamPars, &rng);
+  if (status < 0) {
+    fprintf(stderr, "*** ERROR: Failure in MCMC processing!\n\n");
+    exit(-1);
+  }
   printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
-- 
2.43.0


From 70e6a9c33d3b603af08e8bcda36c5b0a39a7addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:59 +0000
Subject: [PATCH 59/59] fix: report output files that cannot be opened or
 written, go on with the others

---
 core/imfit_main.cpp                    | 26 ++++++++++++++++---------
 core/makeimage_main.cpp                | 16 ++++++++-------
 core/makemultimages_main.cpp           |  4 ++++
 core/multimfit_main.cpp                | 15 ++++++++------
 core/print_results.cpp                 | 14 ++++++-------
 core/print_results.h                   |  3 ++-
 core/print_results_multi.cpp           | 22 ++++++++++++---------
 core/sample_configs.h                  | 24 ++++++++++-------------
 core/utilities.cpp                     | 27 ++++++++++++++++++++++++++
 core/utilities_pub.h                   |  8 ++++++++
 profile_fitting/psfconvolve1d_main.cpp |  3 ++-
 11 files changed, 108 insertions(+), 54 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 4499820..d6f7131 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -150,6 +150,7 @@ int main(int argc, char *argv[])
   vector<string> programHeader;
   bool  userInterrupted = false;
   FILE  *bootstrapSaveFile_ptr = nullptr;
+  bool  parametersSaved = true;
   bool  didBootstrap = false;
   // timing-related
   struct timeval  timer_start_all, timer_end_all;
@@ -406,9 +407,10 @@ int main(int argc, char *argv[])
   // ** Optional bootstrap resampling
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
-      bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      bootstrapSaveFile_ptr = OpenOutputFile(options->outputBootstrapFileName);
       // write general info + best-fitting params as a commented-out header
-      SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
+      if (bootstrapSaveFile_ptr != nullptr)
+        SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
     
     printf("\nNow doing bootstrap resampling (%d iterations) to estimate errors...\n",
@@ -419,11 +421,11 @@ int main(int argc, char *argv[])
     									nFreeParams, theModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed);
     gettimeofday(&timer_end_bootstrap, nullptr);
-    if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
+    if (bootstrapSaveFile_ptr != nullptr) {
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      bool  bootstrapSaved = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if ((nSucessfulIterations > 0) && bootstrapSaved)
+        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
@@ -436,16 +438,20 @@ int main(int argc, char *argv[])
   if (options->saveBestFitParams) {
     if (! userInterrupted) {
       printf("Saving best-fit parameters in file \"%s\"\n", options->outputParameterFileName.c_str());
-      SaveParameters(paramsVect, theModel, options->outputParameterFileName, programHeader, 
-    						nFreeParams, options->solver, fitStatus, resultsFromSolver);
+      parametersSaved = SaveParameters(paramsVect, theModel, options->outputParameterFileName, 
+    						programHeader, nFreeParams, options->solver, fitStatus, resultsFromSolver);
     }
     else {
       // User interrupted (e.g via Ctrl-C), so save parameters in special file
        printf("Saving current parameters in file \"%s\"\n", options->interruptedParameterFileName.c_str());
-      SaveParameters(paramsVect, theModel, options->interruptedParameterFileName, programHeader, 
+      parametersSaved = SaveParameters(paramsVect, theModel, options->interruptedParameterFileName, programHeader, 
     						nFreeParams, options->solver, fitStatus, resultsFromSolver);   
     }
   }
+  if ((! parametersSaved) && (! userInterrupted)) {
+    // model image and weights for the output images normally come from SaveParameters()
+    theModel->GetFitStatistic(paramsVect);
+  }
   if ((options->saveModel) && (! userInterrupted)) {
     PrepareImageComments(&imageCommentsList, progNameVersion, options->outputParameterFileName,
     					options->psfImagePresent, options->psfFileName, HDR_MODELIMAGE,
@@ -527,6 +533,8 @@ int main(int argc, char *argv[])
   
   printf("Done!\n\n");
   
+  if (! parametersSaved)
+    return -1;
   return 0;
 }
 
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 98ec42c..e45b792 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -806,13 +806,15 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back("#\n");
     headerLines.push_back(columHeaderLine_for_file);
 
-    FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
-    for (n = 0; n < (int)headerLines.size(); n++)
-      fprintf(file_ptr, "%s", headerLines[n].c_str());
-    for (n = 0; n < (int)saveFluxesLines.size(); n++)
-      fprintf(file_ptr, "%s", saveFluxesLines[n].c_str());
-    fclose(file_ptr);
-    printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
+    FILE * file_ptr = OpenOutputFile(options->saveFluxesFileName);
+    if (file_ptr != nullptr) {
+      for (n = 0; n < (int)headerLines.size(); n++)
+        fprintf(file_ptr, "%s", headerLines[n].c_str());
+      for (n = 0; n < (int)saveFluxesLines.size(); n++)
+        fprintf(file_ptr, "%s", saveFluxesLines[n].c_str());
+      if (CloseOutputFile(file_ptr, options->saveFluxesFileName))
+        printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
+    }
   }
 
   free(fluxes);
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 90fb4ba..2f0618d 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -400,6 +400,10 @@ int main( int argc, char *argv[] )
       status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
     							multImageOutputName, nColsThisImage, nRowsThisImage,
     							imageCommentsList);
+      if (status != 0) {
+        fprintf(stderr,  "\n*** WARNING: Unable to save output image file \"%s\"!\n\n", 
+        			multImageOutputName.c_str());
+      }
     }
   }
 
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 0649e44..54e1864 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -178,6 +178,7 @@ int main(int argc, char *argv[])
   vector<string> programHeader;
   bool  userInterrupted = false;
   FILE  *bootstrapSaveFile_ptr = nullptr;
+  bool  summarySaved = true;
   bool  didBootstrap = false;
   // timing-related
   struct timeval  timer_start_all, timer_end_all;
@@ -739,7 +740,7 @@ int main(int argc, char *argv[])
     PrintResults(paramsVect, theMultImageModel, nFreeParams, fitStatus, resultsFromSolver);
     string  outputSummaryFile = options->outputParameterRootName + "_summary.dat";
     printf("\nSaving summary of fit in %s...\n", outputSummaryFile.c_str());
-    SaveParameters(paramsVect, theMultImageModel, outputSummaryFile, programHeader,
+    summarySaved = SaveParameters(paramsVect, theMultImageModel, outputSummaryFile, programHeader,
     			nFreeParams, options->solver, fitStatus, resultsFromSolver);
   }
 
@@ -759,7 +760,7 @@ int main(int argc, char *argv[])
   // Optional bootstrap resampling
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
-      bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      bootstrapSaveFile_ptr = OpenOutputFile(options->outputBootstrapFileName);
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
@@ -772,11 +773,11 @@ int main(int argc, char *argv[])
     									nFreeParams, theMultImageModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed, true);
     gettimeofday(&timer_end_bootstrap, NULL);
-    if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
+    if (bootstrapSaveFile_ptr != nullptr) {
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      bool  bootstrapSaved = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if ((nSucessfulIterations > 0) && bootstrapSaved)
+        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
@@ -877,6 +878,8 @@ int main(int argc, char *argv[])
  
   printf("Done!\n\n");
 
+  if (! summarySaved)
+    return -1;
   return 0;
 }
 
diff --git a/core/print_results.cpp b/core/print_results.cpp
index f7dceba..e671e27 100644
--- a/core/print_results.cpp
+++ b/core/print_results.cpp
@@ -217,8 +217,9 @@ void GetSolverSummary( int status, int solverID, string& outputString )
 }
 
 
-/// Saves best-fit parameters (and summary of fit statistics) to a file.
-void SaveParameters( double *params, ModelObject *model, string& outputFilename, 
+/// Saves best-fit parameters (and summary of fit statistics) to a file. Returns false
+/// (after printing a warning) if there were problems with opening or writing the file.
+bool SaveParameters( double *params, ModelObject *model, string& outputFilename, 
 					vector<string>& outputHeader, int nFreeParameters, int whichSolver, 
 					int fitStatus, SolverResults& solverResults )
 {
@@ -226,10 +227,9 @@ void SaveParameters( double *params, ModelObject *model, string& outputFilename,
   string  statName, algorithmSummary;
   double  *parameterErrs = nullptr;
   
-  if ((file_ptr = fopen(outputFilename.c_str(), "w")) == nullptr) {
-    fprintf(stderr, FILE_OPEN_ERR_STRING, outputFilename.c_str());
-    exit(-1);
-  }
+  file_ptr = OpenOutputFile(outputFilename);
+  if (file_ptr == nullptr)
+    return false;
 
   // Get minimization (solver output) info
   GetSolverSummary(fitStatus, whichSolver, algorithmSummary);
@@ -286,7 +286,7 @@ void SaveParameters( double *params, ModelObject *model, string& outputFilename,
   else
     PrintParameters(file_ptr, model, params, nullptr);
 
-  fclose(file_ptr);
+  return CloseOutputFile(file_ptr, outputFilename);
 }
 
 
diff --git a/core/print_results.h b/core/print_results.h
index d7a3403..33edee0 100644
--- a/core/print_results.h
+++ b/core/print_results.h
@@ -21,7 +21,8 @@ void PrintResults( double *params, ModelObject *model, int nFreeParameters, int
 
 void PrintFitStatistic( double *params, ModelObject *model, int nFreeParameters );
 
-void SaveParameters( double *params, ModelObject *model, string& outputFilename, 
+// returns false (after printing a warning) if the file could not be written
+bool SaveParameters( double *params, ModelObject *model, string& outputFilename, 
 					vector<string>& outputHeader, int nFreeParameters, int whichSolver, 
 					int fitStatus, SolverResults& solverResults );
 
diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index ad20057..00a73a1 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -68,7 +68,9 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
       newFilename = PrintToString("%s_image%d.dat", outputFilenameRoot.c_str(), i + 1);
       printf("\tSaving %s...\n", newFilename.c_str());
     }
-    file_ptr = fopen(newFilename.c_str(), "w");
+    file_ptr = OpenOutputFile(newFilename);
+    if (file_ptr == nullptr)
+      continue;
     for (auto line: outputHeader)
       fprintf(file_ptr, "%s\n", line.c_str());
     dataFilename = multModel->GetDataFilename(i);
@@ -76,7 +78,7 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
     multModel->GetParameterStringsForOneImage(stringsForFile, params, i);
     for (auto line: stringsForFile)
       fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    CloseOutputFile(file_ptr, newFilename);
   }
 }
 
@@ -139,13 +141,15 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   }
   
   if (stringsForFile.size() > 0) {
-    file_ptr = fopen(outputFilename.c_str(), "w");
-    for (auto line: outputHeader)
-      fprintf(file_ptr, "%s\n", line.c_str());
-    fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
-    for (auto line: stringsForFile)
-      fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    file_ptr = OpenOutputFile(outputFilename);
+    if (file_ptr != nullptr) {
+      for (auto line: outputHeader)
+        fprintf(file_ptr, "%s\n", line.c_str());
+      fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
+      for (auto line: stringsForFile)
+        fprintf(file_ptr, "%s", line.c_str());
+      CloseOutputFile(file_ptr, outputFilename);
+    }
   }
   
   free(imageDescriptionParams);
diff --git a/core/sample_configs.h b/core/sample_configs.h
index bdb757f..92bd2ab 100644
--- a/core/sample_configs.h
+++ b/core/sample_configs.h
@@ -62,14 +62,12 @@ int SaveExampleImfitConfig( )
 {
   FILE *outFile_ptr = fopen(configImfitFile.c_str(), "w");
   if (outFile_ptr) {
-    fprintf(outFile_ptr, "%s", configImfitText.c_str());
-    fclose(outFile_ptr);
-    return 0;
-  }
-  else {
-    fprintf(stderr, "*** Unable to save sample config file! ***\n");
-    return -1;
+    bool  writeError = (fprintf(outFile_ptr, "%s", configImfitText.c_str()) < 0);
+    if ((fclose(outFile_ptr) == 0) && (! writeError))
+      return 0;
   }
+  fprintf(stderr, "*** Unable to save sample config file \"%s\"! ***\n", configImfitFile.c_str());
+  return -1;
 }
 
 
@@ -78,14 +76,12 @@ int SaveExampleMakeimageConfig( )
 {
   FILE *outFile_ptr = fopen(configMakeimageFile.c_str(), "w");
   if (outFile_ptr) {
-    fprintf(outFile_ptr, "%s", configMakeimageText.c_str());
-    fclose(outFile_ptr);
-    return 0;
-  }
-  else {
-    fprintf(stderr, "*** Unable to save sample config file! ***\n");
-    return -1;
+    bool  writeError = (fprintf(outFile_ptr, "%s", configMakeimageText.c_str()) < 0);
+    if ((fclose(outFile_ptr) == 0) && (! writeError))
+      return 0;
   }
+  fprintf(stderr, "*** Unable to save sample config file \"%s\"! ***\n", configMakeimageFile.c_str());
+  return -1;
 }
 
 
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 419128b..1d4e4f3 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -97,6 +97,33 @@ string vformat( const char *fmt, va_list ap )
 
 
 
+/* ---------------- FUNCTION: OpenOutputFile() ---------------------- */
+// Opens file for writing; prints warning message if that failed (and returns nullptr)
+FILE * OpenOutputFile( const string& fileName )
+{
+  FILE  *file_ptr = fopen(fileName.c_str(), "w");
+  if (file_ptr == nullptr)
+    fprintf(stderr, "\n*** WARNING: Unable to open output file \"%s\"!\n\n", fileName.c_str());
+  return file_ptr;
+}
+
+
+
+/* ---------------- FUNCTION: CloseOutputFile() --------------------- */
+// Closes output file. Returns true if everything was successfully written to it;
+// otherwise, prints warning message and returns false
+bool CloseOutputFile( FILE *file_ptr, const string& fileName )
+{
+  bool  writeError = (ferror(file_ptr) != 0);
+  if ((fclose(file_ptr) != 0) || writeError) {
+    fprintf(stderr, "\n*** WARNING: Problems writing to output file \"%s\"!\n\n", fileName.c_str());
+    return false;
+  }
+  return true;
+}
+
+
+
 /* ---------------- FUNCTION: MakeOutputHeader() ------------------- */
 
 void MakeOutputHeader( vector<string> *headerLines, const string& programName, 
diff --git a/core/utilities_pub.h b/core/utilities_pub.h
index 2383404..855654e 100644
--- a/core/utilities_pub.h
+++ b/core/utilities_pub.h
@@ -5,6 +5,7 @@
 #ifndef _UTILITIES_PUB_H_
 #define _UTILITIES_PUB_H_
 
+#include <stdio.h>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -35,6 +36,13 @@ const int HDR_WEIGHTIMAGE = 3;
 string PrintToString( const char *fmt, ... );
 
 
+/// \brief Opens file for writing; prints warning message if that failed (and returns nullptr)
+FILE * OpenOutputFile( const string& fileName );
+
+/// \brief Closes output file. Returns true if everything was successfully written to it;
+///        otherwise, prints warning message and returns false
+bool CloseOutputFile( FILE *file_ptr, const string& fileName );
+
 /// \brief Generates vector of strings containing program name, time stamp,
 ///        and command-line invocation, intended to be written to start of
 ///        best-fit output-parameter files, etc.
diff --git a/profile_fitting/psfconvolve1d_main.cpp b/profile_fitting/psfconvolve1d_main.cpp
index f091279..7262544 100644
--- a/profile_fitting/psfconvolve1d_main.cpp
+++ b/profile_fitting/psfconvolve1d_main.cpp
@@ -274,7 +274,8 @@ void SaveProfile( std::string& fileName, double *xVals, double *yVals, int nData
     fprintf(file_ptr, "%f\t%f\n", xVals[i], yVals[i]);
   }
   
-  fclose(file_ptr);
+  if (! CloseOutputFile(file_ptr, fileName))
+    exit(-1);
 }
 
 
-- 
2.43.0

