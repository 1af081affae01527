------------------------------ MODULE ApiTable ------------------------------
(* Endpoints of the API client, written by tools/gen_api_table.mjs.          *)
(* p: path segments, ARG0.. stand for the arguments; q: query fields; must:  *)
(* required ones; body: the request is sent as the JSON body.                *)
Endpoints == {
  [id |-> "annotationQueues.createQueue", m |-> "POST", p |-> <<"api", "public", "annotation-queues">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "annotationQueues.createQueueAssignment", m |-> "POST", p |-> <<"api", "public", "annotation-queues", "ARG0", "assignments">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "annotationQueues.createQueueItem", m |-> "POST", p |-> <<"api", "public", "annotation-queues", "ARG0", "items">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "annotationQueues.deleteQueueAssignment", m |-> "DELETE", p |-> <<"api", "public", "annotation-queues", "ARG0", "assignments">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "annotationQueues.deleteQueueItem", m |-> "DELETE", p |-> <<"api", "public", "annotation-queues", "ARG0", "items", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "annotationQueues.getQueue", m |-> "GET", p |-> <<"api", "public", "annotation-queues", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "annotationQueues.getQueueItem", m |-> "GET", p |-> <<"api", "public", "annotation-queues", "ARG0", "items", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "annotationQueues.listQueueItems", m |-> "GET", p |-> <<"api", "public", "annotation-queues", "ARG0", "items">>, n |-> 1, q |-> {"status", "page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "annotationQueues.listQueues", m |-> "GET", p |-> <<"api", "public", "annotation-queues">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "annotationQueues.updateQueueItem", m |-> "PATCH", p |-> <<"api", "public", "annotation-queues", "ARG0", "items", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "blobStorageIntegrations.deleteBlobStorageIntegration", m |-> "DELETE", p |-> <<"api", "public", "integrations", "blob-storage", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "blobStorageIntegrations.getBlobStorageIntegrationStatus", m |-> "GET", p |-> <<"api", "public", "integrations", "blob-storage", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "blobStorageIntegrations.getBlobStorageIntegrations", m |-> "GET", p |-> <<"api", "public", "integrations", "blob-storage">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "blobStorageIntegrations.upsertBlobStorageIntegration", m |-> "PUT", p |-> <<"api", "public", "integrations", "blob-storage">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "comments.create", m |-> "POST", p |-> <<"api", "public", "comments">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "comments.get", m |-> "GET", p |-> <<"api", "public", "comments">>, n |-> 0, q |-> {"page", "limit", "objectType", "objectId", "authorUserId"}, must |-> {}, body |-> FALSE],
  [id |-> "comments.getById", m |-> "GET", p |-> <<"api", "public", "comments", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasetItems.create", m |-> "POST", p |-> <<"api", "public", "dataset-items">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "datasetItems.delete", m |-> "DELETE", p |-> <<"api", "public", "dataset-items", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasetItems.get", m |-> "GET", p |-> <<"api", "public", "dataset-items", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasetItems.list", m |-> "GET", p |-> <<"api", "public", "dataset-items">>, n |-> 0, q |-> {"datasetName", "sourceTraceId", "sourceObservationId", "version", "page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "datasetRunItems.create", m |-> "POST", p |-> <<"api", "public", "dataset-run-items">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "datasetRunItems.list", m |-> "GET", p |-> <<"api", "public", "dataset-run-items">>, n |-> 0, q |-> {"datasetId", "runName", "page", "limit"}, must |-> {"datasetId", "runName"}, body |-> FALSE],
  [id |-> "datasets.create", m |-> "POST", p |-> <<"api", "public", "v2", "datasets">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "datasets.deleteRun", m |-> "DELETE", p |-> <<"api", "public", "datasets", "ARG0", "runs", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasets.get", m |-> "GET", p |-> <<"api", "public", "v2", "datasets", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasets.getRun", m |-> "GET", p |-> <<"api", "public", "datasets", "ARG0", "runs", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "datasets.getRuns", m |-> "GET", p |-> <<"api", "public", "datasets", "ARG0", "runs">>, n |-> 1, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "datasets.list", m |-> "GET", p |-> <<"api", "public", "v2", "datasets">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "experiments.list", m |-> "GET", p |-> <<"api", "public", "experiments">>, n |-> 0, q |-> {"fields", "limit", "scoreLimit", "cursor", "fromStartTime", "toStartTime", "id", "name", "datasetId", "filter"}, must |-> {"fromStartTime"}, body |-> FALSE],
  [id |-> "experiments.listItems", m |-> "GET", p |-> <<"api", "public", "experiment-items">>, n |-> 0, q |-> {"fields", "limit", "scoreLimit", "cursor", "fromStartTime", "toStartTime", "experimentId", "experimentName", "experimentItemId", "datasetId", "filter"}, must |-> {"fromStartTime"}, body |-> FALSE],
  [id |-> "feedback.submit", m |-> "POST", p |-> <<"api", "public", "feedback">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "health.health", m |-> "GET", p |-> <<"api", "public", "health">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "ingestion.batch", m |-> "POST", p |-> <<"api", "public", "ingestion">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "legacy.metricsV1.metrics", m |-> "GET", p |-> <<"api", "public", "metrics">>, n |-> 0, q |-> {"query"}, must |-> {"query"}, body |-> FALSE],
  [id |-> "legacy.observationsV1.get", m |-> "GET", p |-> <<"api", "public", "observations", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "legacy.observationsV1.getMany", m |-> "GET", p |-> <<"api", "public", "observations">>, n |-> 0, q |-> {"page", "limit", "name", "userId", "type", "traceId", "level", "parentObservationId", "environment", "fromStartTime", "toStartTime", "version", "filter"}, must |-> {}, body |-> FALSE],
  [id |-> "legacy.scoreV1.create", m |-> "POST", p |-> <<"api", "public", "scores">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "legacy.scoreV1.delete", m |-> "DELETE", p |-> <<"api", "public", "scores", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "llmConnections.delete", m |-> "DELETE", p |-> <<"api", "public", "llm-connections", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "llmConnections.list", m |-> "GET", p |-> <<"api", "public", "llm-connections">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "llmConnections.upsert", m |-> "PUT", p |-> <<"api", "public", "llm-connections">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "media.get", m |-> "GET", p |-> <<"api", "public", "media", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "media.getUploadUrl", m |-> "POST", p |-> <<"api", "public", "media">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "media.patch", m |-> "PATCH", p |-> <<"api", "public", "media", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "metrics.metrics", m |-> "GET", p |-> <<"api", "public", "v2", "metrics">>, n |-> 0, q |-> {"query"}, must |-> {"query"}, body |-> FALSE],
  [id |-> "models.create", m |-> "POST", p |-> <<"api", "public", "models">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "models.delete", m |-> "DELETE", p |-> <<"api", "public", "models", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "models.get", m |-> "GET", p |-> <<"api", "public", "models", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "models.list", m |-> "GET", p |-> <<"api", "public", "models">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "observations.getMany", m |-> "GET", p |-> <<"api", "public", "v2", "observations">>, n |-> 0, q |-> {"fields", "expandMetadata", "limit", "cursor", "parseIoAsJson", "name", "userId", "sessionId", "type", "traceId", "level", "parentObservationId", "isRootObservation", "environment", "fromStartTime", "toStartTime", "version", "filter"}, must |-> {}, body |-> FALSE],
  [id |-> "opentelemetry.exportTraces", m |-> "POST", p |-> <<"api", "public", "otel", "v1", "traces">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "organizations.deleteOrganizationMembership", m |-> "DELETE", p |-> <<"api", "public", "organizations", "memberships">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "organizations.deleteProjectMembership", m |-> "DELETE", p |-> <<"api", "public", "projects", "ARG0", "memberships">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "organizations.getOrganizationApiKeys", m |-> "GET", p |-> <<"api", "public", "organizations", "apiKeys">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "organizations.getOrganizationMemberships", m |-> "GET", p |-> <<"api", "public", "organizations", "memberships">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "organizations.getOrganizationProjects", m |-> "GET", p |-> <<"api", "public", "organizations", "projects">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "organizations.getProjectMemberships", m |-> "GET", p |-> <<"api", "public", "projects", "ARG0", "memberships">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "organizations.updateOrganizationMembership", m |-> "PUT", p |-> <<"api", "public", "organizations", "memberships">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "organizations.updateProjectMembership", m |-> "PUT", p |-> <<"api", "public", "projects", "ARG0", "memberships">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "projects.create", m |-> "POST", p |-> <<"api", "public", "projects">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "projects.createApiKey", m |-> "POST", p |-> <<"api", "public", "projects", "ARG0", "apiKeys">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "projects.delete", m |-> "DELETE", p |-> <<"api", "public", "projects", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "projects.deleteApiKey", m |-> "DELETE", p |-> <<"api", "public", "projects", "ARG0", "apiKeys", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "projects.get", m |-> "GET", p |-> <<"api", "public", "projects">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "projects.getApiKeys", m |-> "GET", p |-> <<"api", "public", "projects", "ARG0", "apiKeys">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "projects.update", m |-> "PUT", p |-> <<"api", "public", "projects", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "promptVersion.update", m |-> "PATCH", p |-> <<"api", "public", "v2", "prompts", "ARG0", "versions", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "prompts.create", m |-> "POST", p |-> <<"api", "public", "v2", "prompts">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "prompts.delete", m |-> "DELETE", p |-> <<"api", "public", "v2", "prompts", "ARG0">>, n |-> 1, q |-> {"label", "version"}, must |-> {}, body |-> FALSE],
  [id |-> "prompts.get", m |-> "GET", p |-> <<"api", "public", "v2", "prompts", "ARG0">>, n |-> 1, q |-> {"version", "label", "resolve"}, must |-> {}, body |-> FALSE],
  [id |-> "prompts.list", m |-> "GET", p |-> <<"api", "public", "v2", "prompts">>, n |-> 0, q |-> {"name", "label", "tag", "page", "limit", "fromUpdatedAt", "toUpdatedAt"}, must |-> {}, body |-> FALSE],
  [id |-> "scim.createUser", m |-> "POST", p |-> <<"api", "public", "scim", "Users">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "scim.deleteUser", m |-> "DELETE", p |-> <<"api", "public", "scim", "Users", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scim.getResourceTypes", m |-> "GET", p |-> <<"api", "public", "scim", "ResourceTypes">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scim.getSchemas", m |-> "GET", p |-> <<"api", "public", "scim", "Schemas">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scim.getServiceProviderConfig", m |-> "GET", p |-> <<"api", "public", "scim", "ServiceProviderConfig">>, n |-> 0, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scim.getUser", m |-> "GET", p |-> <<"api", "public", "scim", "Users", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scim.listUsers", m |-> "GET", p |-> <<"api", "public", "scim", "Users">>, n |-> 0, q |-> {"filter", "startIndex", "count"}, must |-> {}, body |-> FALSE],
  [id |-> "scoreConfigs.create", m |-> "POST", p |-> <<"api", "public", "score-configs">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "scoreConfigs.get", m |-> "GET", p |-> <<"api", "public", "score-configs">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "scoreConfigs.getById", m |-> "GET", p |-> <<"api", "public", "score-configs", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scoreConfigs.update", m |-> "PATCH", p |-> <<"api", "public", "score-configs", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "scores.create", m |-> "POST", p |-> <<"api", "public", "scores">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "scores.getById", m |-> "GET", p |-> <<"api", "public", "v2", "scores", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "scores.getMany", m |-> "GET", p |-> <<"api", "public", "v2", "scores">>, n |-> 0, q |-> {"page", "limit", "userId", "name", "fromTimestamp", "toTimestamp", "environment", "source", "operator", "value", "scoreIds", "configId", "sessionId", "datasetRunId", "traceId", "observationId", "queueId", "dataType", "traceTags", "fields", "filter"}, must |-> {}, body |-> FALSE],
  [id |-> "scoresV3.getManyV3", m |-> "GET", p |-> <<"api", "public", "v3", "scores">>, n |-> 0, q |-> {"limit", "cursor", "fields", "id", "name", "source", "dataType", "environment", "configId", "queueId", "authorUserId", "value", "valueMin", "valueMax", "traceId", "sessionId", "observationId", "experimentId", "fromTimestamp", "toTimestamp"}, must |-> {}, body |-> FALSE],
  [id |-> "sessions.get", m |-> "GET", p |-> <<"api", "public", "sessions", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "sessions.list", m |-> "GET", p |-> <<"api", "public", "sessions">>, n |-> 0, q |-> {"page", "limit", "fromTimestamp", "toTimestamp", "environment"}, must |-> {}, body |-> FALSE],
  [id |-> "trace.delete", m |-> "DELETE", p |-> <<"api", "public", "traces", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "trace.deleteMultiple", m |-> "DELETE", p |-> <<"api", "public", "traces">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "trace.get", m |-> "GET", p |-> <<"api", "public", "traces", "ARG0">>, n |-> 1, q |-> {"fields"}, must |-> {}, body |-> FALSE],
  [id |-> "trace.list", m |-> "GET", p |-> <<"api", "public", "traces">>, n |-> 0, q |-> {"page", "limit", "userId", "name", "sessionId", "fromTimestamp", "toTimestamp", "orderBy", "tags", "version", "release", "environment", "fields", "filter"}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboardWidgets.create", m |-> "POST", p |-> <<"api", "public", "unstable", "dashboard-widgets">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.dashboardWidgets.delete", m |-> "DELETE", p |-> <<"api", "public", "unstable", "dashboard-widgets", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboardWidgets.get", m |-> "GET", p |-> <<"api", "public", "unstable", "dashboard-widgets", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboardWidgets.list", m |-> "GET", p |-> <<"api", "public", "unstable", "dashboard-widgets">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboardWidgets.update", m |-> "PATCH", p |-> <<"api", "public", "unstable", "dashboard-widgets", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.dashboards.addPlacement", m |-> "POST", p |-> <<"api", "public", "unstable", "dashboards", "ARG0", "placements">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.dashboards.create", m |-> "POST", p |-> <<"api", "public", "unstable", "dashboards">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.dashboards.delete", m |-> "DELETE", p |-> <<"api", "public", "unstable", "dashboards", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboards.deletePlacement", m |-> "DELETE", p |-> <<"api", "public", "unstable", "dashboards", "ARG0", "placements", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboards.get", m |-> "GET", p |-> <<"api", "public", "unstable", "dashboards", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboards.list", m |-> "GET", p |-> <<"api", "public", "unstable", "dashboards">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.dashboards.update", m |-> "PATCH", p |-> <<"api", "public", "unstable", "dashboards", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.dashboards.updatePlacement", m |-> "PATCH", p |-> <<"api", "public", "unstable", "dashboards", "ARG0", "placements", "ARG1">>, n |-> 2, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.evaluationRules.create", m |-> "POST", p |-> <<"api", "public", "unstable", "evaluation-rules">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.evaluationRules.delete", m |-> "DELETE", p |-> <<"api", "public", "unstable", "evaluation-rules", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.evaluationRules.get", m |-> "GET", p |-> <<"api", "public", "unstable", "evaluation-rules", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.evaluationRules.list", m |-> "GET", p |-> <<"api", "public", "unstable", "evaluation-rules">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.evaluationRules.update", m |-> "PATCH", p |-> <<"api", "public", "unstable", "evaluation-rules", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.evaluators.create", m |-> "POST", p |-> <<"api", "public", "unstable", "evaluators">>, n |-> 0, q |-> {}, must |-> {}, body |-> TRUE],
  [id |-> "unstable.evaluators.delete", m |-> "DELETE", p |-> <<"api", "public", "unstable", "evaluators", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.evaluators.get", m |-> "GET", p |-> <<"api", "public", "unstable", "evaluators", "ARG0">>, n |-> 1, q |-> {}, must |-> {}, body |-> FALSE],
  [id |-> "unstable.evaluators.list", m |-> "GET", p |-> <<"api", "public", "unstable", "evaluators">>, n |-> 0, q |-> {"page", "limit"}, must |-> {}, body |-> FALSE]
}
=============================================================================
