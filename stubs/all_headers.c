/* Not part of the product: pulls in every header that defines wire routines so that unused inline ones are analysed too. */
#include "pdc_client_server_common.h"
#include "pdc_analysis_and_transforms_common.h"
#include "pdc_transforms_common.h"
