#pragma once
#define GRPC_ARG_LB_POLICY_NAME "grpc.lb_policy_name"
#define GRPC_ARG_ENABLE_RETRIES "grpc.enable_retries"
