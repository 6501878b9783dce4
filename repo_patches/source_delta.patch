From f5fe0aeb65b5af548304a0fc3544cde98956dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 01/72] fix: express ProductionSystem with states could not be
 converted to a model (comprehension variable shadowed the state module)

---
 prodsys/express/production_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index 39084ea..d6400d1 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -109,7 +109,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_models = (
             [process_instance.time_model for process_instance in processes if not isinstance(process_instance, process.RequiredCapabilityProcess)]
-            + [state.time_model for state in states]
+            + [s.time_model for s in states]
             + [source.time_model for source in self.sources]
         )
         time_models += [
@@ -138,7 +138,7 @@ class ProductionSystem(core.ExpressObject):
 
         time_model_data = [time_model.to_model() for time_model in time_models]
         process_data = [process.to_model() for process in processes]
-        state_data = [state.to_model() for state in states]
+        state_data = [s.to_model() for s in states]
         nodes_data = [node.to_model() for node in nodes]
         product_data = [product.to_model() for product in products]
         resource_data = [resource.to_model() for resource in self.resources]
-- 
2.43.0


From 3d919f7662f4080401bc4c029bb3836eb1b82582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 02/72] fix: two products could be started on the same
 production state of a resource with capacity > 1 (state was selected and
 occupied in separate steps)

---
 prodsys/simulation/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index a69c5a5..0963b3c 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -280,9 +280,10 @@ class ProductionController(Controller):
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve product {product.product_data.ID} from queue"})
             yield events.AllOf(resource.env, product_retrieval_events)
 
-            production_state: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            # select and occupy the free state in one step, so that no other process can select the same state
+            production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
-            yield self.env.process(self.run_process(production_state, product, process))
+            yield from self.run_process(production_state, product, process)
             production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
-- 
2.43.0


From 17dcfd5af52237644172ba9d213d37d02a5225c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 03/72] fix: a process breakdown drew an additional repair time
 for a debug message and so skipped every second repair time of its time model

---
 prodsys/simulation/state.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 7888c10..60a5f09 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -569,7 +569,6 @@ class ProcessBreakDownState(State):
             yield events.AllOf(
                 self.env, [state.active for state in self.production_states]
             )
-            debug_logging(self, f"interrupted states, starting breakdown for {self.repair_time_model.get_next_time()}")
             for state in self.production_states + self.resource.setup_states:
                 state.deactivate()
             for state in self.production_states + self.resource.setup_states:
-- 
2.43.0


From 1994c5fbcafb89638140a4a53c817779ddf9490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 04/72] fix: an interrupted process resumed during a breakdown
 that starts at the same time at which the previous breakdown ends

---
 prodsys/simulation/state.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 60a5f09..8e6d5e7 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -268,6 +268,18 @@ class State(ABC, BaseModel):
         """
         pass
 
+    def wait_until_active(self) -> Generator:
+        """
+        Waits until the state and its resource are active. This is checked again after waiting, since a breakdown can start at the same time at which the previous one ends.
+
+        Yields:
+            Generator: The generator yields when the state and its resource are active.
+        """
+        while True:
+            yield events.AllOf(self.env, [self.active, self.resource.active])
+            if self.active.triggered and self.resource.active.triggered:
+                break
+
     def activate_state(self):
         """
         Activates the state and at start of the simulation.
@@ -334,7 +346,7 @@ class ProductionState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -446,7 +458,7 @@ class TransportState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
@@ -651,7 +663,7 @@ class SetupState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     self.interrupted = False
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.state_info.log_end_interrupt_state(
@@ -744,7 +756,7 @@ class ChargingState(State):
                     )
                     self.update_done_in()
                     debug_logging(self, f"interrupted process that ends in {self.done_in}")
-                    yield events.AllOf(self.env, [self.active, self.resource.active])
+                    yield from self.wait_until_active()
                     debug_logging(self, f"interrupt over for process that ends in {self.done_in}")
                     self.interrupted = False
                     self.state_info.log_end_interrupt_state(
-- 
2.43.0


From e377145381918687679e3d4d7e91dbaa532704ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 05/72] fix: overlapping breakdowns of different processes of a
 resource activated its setup states twice

---
 prodsys/simulation/state.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 8e6d5e7..125c1a0 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -556,6 +556,7 @@ class ProcessBreakDownState(State):
     state_data: ProcessBreakDownStateData
     production_states: List[State] = None
     repair_time_model: time_model.TimeModel
+    active_breakdown: bool = False
 
     @model_validator(mode="before")
     def post_init(cls, values):
@@ -578,11 +579,15 @@ class ProcessBreakDownState(State):
         while True:
             yield self.env.process(self.wait_for_breakdown())
             debug_logging(self, f"breakdown occured, start interrupting processes")
-            yield events.AllOf(
-                self.env, [state.active for state in self.production_states]
-            )
+            while not all(state.active.triggered for state in self.production_states):
+                yield events.AllOf(
+                    self.env, [state.active for state in self.production_states]
+                )
+            self.active_breakdown = True
             for state in self.production_states + self.resource.setup_states:
-                state.deactivate()
+                # Setup states can already be deactivated by a breakdown of another process.
+                if state.active.triggered:
+                    state.deactivate()
             for state in self.production_states + self.resource.setup_states:
                 if state.process and state.process.is_alive and not state.interrupted:
                     state.interrupt_process()
@@ -594,8 +599,16 @@ class ProcessBreakDownState(State):
             yield self.env.timeout(repair_time)
             self.state_info.log_end_state(self.env.now, StateTypeEnum.process_breakdown)
             debug_logging(self, f"breakdown finished, reactivating states")
-            for state in self.production_states + self.resource.setup_states:
+            self.active_breakdown = False
+            for state in self.production_states:
                 state.activate()
+            if not any(
+                state.active_breakdown
+                for state in self.resource.states
+                if isinstance(state, ProcessBreakDownState)
+            ):
+                for state in self.resource.setup_states:
+                    state.activate()
 
     def wait_for_breakdown(self):
         yield self.env.timeout(self.time_model.get_next_time())
-- 
2.43.0


From b030987d7ec9bc2fb8c92345958c16b72e1c43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 06/72] fix: stores lost their location when a production
 system was written to or read from JSON

---
 prodsys/adapters/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 587bf58..1d7977f 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -277,7 +277,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
         time_model_data (List[time_model_data_module.TIME_MODEL_DATA], optional): List of time models used by the entities in the production system. Defaults to [].
         state_data (List[state_data_module.STATE_DATA_UNION], optional): List of states used by the resources in the production system. Defaults to [].
         process_data (List[processes_data_module.PROCESS_DATA_UNION], optional): List of processes required by products and provided by resources in the production system. Defaults to [].
-        queue_data (List[queue_data_module.QueueData], optional): List of queues used by the resources, sources and sinks in the production system. Defaults to [].
+        queue_data (List[queue_data_module.QUEUE_DATA_UNION], optional): List of queues used by the resources, sources and sinks in the production system. Defaults to [].
         node_data (List[resource_data_module.NodeData], optional): List of nodes in the production system. Defaults to [].
         resource_data (List[resource_data_module.RESOURCE_DATA_UNION], optional): List of resources in the production system. Defaults to [].
         product_data (List[product_data_module.ProductData], optional): List of products in the production system. Defaults to []
@@ -293,7 +293,7 @@ class ProductionSystemAdapter(ABC, BaseModel):
     time_model_data: List[time_model_data_module.TIME_MODEL_DATA] = []
     state_data: List[state_data_module.STATE_DATA_UNION] = []
     process_data: List[processes_data_module.PROCESS_DATA_UNION] = []
-    queue_data: List[queue_data_module.QueueData] = []
+    queue_data: List[queue_data_module.QUEUE_DATA_UNION] = []
     node_data: List[node_data_module.NodeData] = []
     resource_data: List[resource_data_module.RESOURCE_DATA_UNION] = []
     product_data: List[product_data_module.ProductData] = []
-- 
2.43.0


From bcb57aa70c64b07b5dd7c08b0f72b3a1102a674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 07/72] fix: transports with euclidean distance metric were
 simulated with manhattan distance or aborted the simulation

---
 prodsys/models/time_model_data.py | 4 ++--
 prodsys/simulation/time_model.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/prodsys/models/time_model_data.py b/prodsys/models/time_model_data.py
index e64bb12..001ba44 100644
--- a/prodsys/models/time_model_data.py
+++ b/prodsys/models/time_model_data.py
@@ -299,7 +299,7 @@ class DistanceTimeModelData(CoreAsset):
         description (str): Description of the time model.
         speed (float): Speed of the transport.
         reaction_time (float): Reaction time of the transport.
-        metric (Literal["manhattan", "euclidian"]): Metric to calculate the distance. Default is "manhattan".
+        metric (Literal["manhattan", "euclidean", "euclidian"]): Metric to calculate the distance ("euclidian" is an alias of "euclidean"). Default is "manhattan".
 
     Examples:
         Distance time model with speed 180 m/min = 3 m/s and reaction time 0.15 minutes:
@@ -316,7 +316,7 @@ class DistanceTimeModelData(CoreAsset):
 
     speed: float
     reaction_time: float
-    metric: Literal["manhattan", "euclidian"] = "manhattan"
+    metric: Literal["manhattan", "euclidean", "euclidian"] = "manhattan"
 
     def hash(self) -> str:
         """
diff --git a/prodsys/simulation/time_model.py b/prodsys/simulation/time_model.py
index 13c565a..5ed4074 100644
--- a/prodsys/simulation/time_model.py
+++ b/prodsys/simulation/time_model.py
@@ -233,7 +233,7 @@ class DistanceTimeModel(TimeModel):
         Returns:
             float: The distance between the two points.
         """
-        if self.time_model_data.metric == "euclidean":
+        if self.time_model_data.metric in ("euclidean", "euclidian"):
             return np.linalg.norm(np.array(origin) - np.array(target))
         elif self.time_model_data.metric == "manhattan":
             return np.sum(np.abs(np.array(origin) - np.array(target)))
-- 
2.43.0


From 7898963cb68514871ac1da56cac32407c035c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 08/72] fix: batch controller started batches from stale or
 missing requests, of mixed processes and beyond the capacity of the resource

---
 prodsys/simulation/control.py | 96 ++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 42 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 0963b3c..eb1ac09 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -359,37 +359,51 @@ class BatchController(Controller):
         else:
             raise ValueError("Resource is not a ProductionResource")
 
+    def get_requests_of_next_batch(self) -> List[request_module.Request]:
+        """
+        Get the requests of the next batch, which are the first requests that require the same process and fill up a batch.
+
+        Returns:
+            List[request_module.Request]: The requests of the next batch. Empty, if there are not enough requests for a batch.
+        """
+        batch_size = self.get_batch_size(self.resource)
+        requests_by_process = {}
+        for process_request in self.requests:
+            requests_for_process = requests_by_process.setdefault(process_request.get_process().process_data.ID, [])
+            requests_for_process.append(process_request)
+        for requests_for_process in requests_by_process.values():
+            if len(requests_for_process) >= batch_size:
+                return requests_for_process[:batch_size]
+        return []
+
     def get_next_product_for_process(
-        self, resource: resources.Resource, process_request: request_module.Request
+        self, resource: resources.Resource, process_requests: List[request_module.Request]
     ) -> List[events.Event]:
         """
         Get the next batch of products for a process. The products are removed (get) from the input queues of the resource.
 
         Args:
             resource (resources.Resource): The resource to take the products from.
-            process_request (request_module.Request): The request that is requesting the products.
+            process_requests (List[request_module.Request]): The requests of the batch that are requesting the products.
 
         Returns:
             List[events.Event]: The events that are triggered when the products are taken from the queue.
         """
         events = []
         if isinstance(resource, resources.ProductionResource):
-            batch_size = self.get_batch_size(resource)
             internal_input_queues = [
                 queue
                 for queue in resource.input_queues
                 if not isinstance(queue, store.Store)
             ]
-            for queue in internal_input_queues:
-                while len(events) < batch_size:
-                    event = queue.get(
-                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
-                    )
-                    if not event:
+            for process_request in process_requests:
+                product_data = process_request.get_product().product_data
+                for queue in internal_input_queues:
+                    if product_data in queue.items:
+                        events.append(queue.get(filter=lambda item, product_data=product_data: item is product_data))
                         break
-                    events.append(event)
-            if not events:
-                raise ValueError("No products available in the queue to fulfill the batch size requirement")
+                else:
+                    raise ValueError(f"Product '{product_data.ID}' not found in any internal queue for resource '{resource.data.ID}'.")
             return events
         else:
             raise ValueError("Resource is not a ProductionResource")
@@ -428,7 +442,7 @@ class BatchController(Controller):
 
     def wait_for_free_process(self, resource: resources.Resource, process: process.Process) -> Generator[List[state.State], None, None]:
         """
-        Wait for free processes of a resource.
+        Wait for free processes of a resource for a whole batch.
 
         Args:
             resource (resources.Resource): The resource.
@@ -440,19 +454,20 @@ class BatchController(Controller):
         Yields:
             Generator: The generator yields lists of free states.
         """
-        possible_states = resource.get_processes(process)
+        batch_size = self.get_batch_size(resource)
         while True:
             free_states = resource.get_free_processes(process)
-            if free_states:
+            occupied_states = [
+                state
+                for state in resource.production_states
+                if state.process is not None and state.process.is_alive
+            ]
+            if len(free_states) >= batch_size and len(occupied_states) + batch_size <= resource.capacity:
                 return free_states
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": resource.data.ID, "event": "Waiting for free process"})
             yield events.AnyOf(
                 self.env,
-                [
-                    state.process
-                    for state in possible_states
-                    if state.process is not None and state.process.is_alive
-                ],
+                [state.process for state in occupied_states],
             )
 
     def control_loop(self) -> Generator:
@@ -482,18 +497,23 @@ class BatchController(Controller):
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
-            if self.resource.full or (len(self.requests) < batch_size and len(self.requests) > 0):
-                logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)}) or resource full ({self.resource.full})"})
+            if self.resource.full:
+                logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Resource full ({self.resource.full})"})
                 continue
             self.control_policy(self.requests)
-            self.reserved_requests_count += 1
-            running_process = self.env.process(self.start_process())
+            process_requests = self.get_requests_of_next_batch()
+            if not process_requests:
+                logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Not enough requests ({len(self.requests)})"})
+                continue
+            for process_request in process_requests:
+                self.requests.remove(process_request)
+            running_process = self.env.process(self.start_process(process_requests))
             self.running_processes.append(running_process)
             if not self.resource.full:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Triggered requested event after process"})
                 self.requested.succeed()
 
-    def start_process(self) -> Generator:
+    def start_process(self, process_requests: List[request_module.Request]) -> Generator:
         """
         Start the next process with the following logic:
 
@@ -503,39 +523,31 @@ class BatchController(Controller):
         4. Run the process and wait until finished.
         5. Place the product in the output queue.
 
+        Args:
+            process_requests (List[request_module.Request]): The requests of the batch.
+
         Yields:
             Generator: The generator yields when the process is finished.
         """
         batch_size = self.get_batch_size(self.resource)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
         yield self.env.timeout(0)
-        process_request = self.requests.pop(0)
-        self.reserved_requests_count -= 1
+        process_request = process_requests[0]
         resource = process_request.get_resource()
         process = process_request.get_process()
         product = process_request.get_product()
-        products = []
-        production_states = []
+        products = [batch_request.get_product() for batch_request in process_requests]
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting setup for process for {product.product_data.ID} with batch size {batch_size}"})
 
         yield self.env.process(resource.setup(process))
         with resource.request() as req:
             yield req
-            product_retrieval_events = self.get_next_product_for_process(resource, process_request)
-            logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to retrieve products for batch from queue"})
-            product_data_list = yield events.AllOf(resource.env, product_retrieval_events)
-
-            for product_data in product_data_list.values():
-                simulation_product = product.product_router.product_factory.get_product(product_data.ID)
-                products.append(simulation_product)
-
-            for simulation_product in products:
-                production_states: state.State = yield self.env.process(self.wait_for_free_process(resource, process))
+            # select and occupy the free states in one step, so that no other batch can select the same states
+            production_states: List[state.State] = yield from self.wait_for_free_process(resource, process)
+            self.get_next_product_for_process(resource, process_requests)
 
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting batch process"})
-            yield self.env.process(self.run_process(production_states, products, process))
-            for state in production_states:
-                state.process = None
+            yield from self.run_process(production_states, products, process)
 
             product_put_events = self.put_product_to_output_queue(resource, products)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put products to queue"})
-- 
2.43.0


From 8959f140f4b65bf33bb3668b7a3da9b0197d34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 09/72] fix: consider requests that arrive while the start of
 another request is pending

ProductionController.control_loop counts a request whose start is pending
both as running process and as reserved request. A request that arrived in
that moment was ignored although the resource had free capacity and was only
considered again with the next request or finished process.
---
 prodsys/simulation/control.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index eb1ac09..89bb3d8 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -268,6 +268,9 @@ class ProductionController(Controller):
         yield self.env.timeout(0)
         process_request = self.requests.pop(0)
         self.reserved_requests_count -= 1
+        if not self.resource.setup_states and not self.resource.full and not self.requested.triggered:
+            # consider requests again that arrived while the start of this request was pending
+            self.requested.succeed()
         resource = process_request.get_resource()
         process = process_request.get_process()
         product = process_request.get_product()
-- 
2.43.0


From 73ca25b308bb4ef7dae8aee1c21738b149cd984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 10/72] fix: use the capacity of the resource if it needs no
 setups

A resource without setup states was limited to the process capacity of the
first process it executed, for all its processes.
---
 prodsys/simulation/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/resources.py b/prodsys/simulation/resources.py
index 54c3a51..4ffe306 100644
--- a/prodsys/simulation/resources.py
+++ b/prodsys/simulation/resources.py
@@ -66,7 +66,7 @@ class Resource(BaseModel, ABC, resource.Resource):
         Returns:
             int: The capacity of the resource for the current setup.
         """
-        if not self.current_setup and not self.reserved_setup:
+        if not self.setup_states or (not self.current_setup and not self.reserved_setup):
             return self.capacity
         elif (
             self.reserved_setup
-- 
2.43.0


From df233bee215ddb3c7f9397132ea1ec60e050c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 11/72] fix: LIFO control policy selects the latest request

Reversing the list of waiting requests at every decision alternates between
the latest and the earliest request.
---
 prodsys/simulation/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 89bb3d8..b79d493 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -961,12 +961,13 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (reverse the list).
+    Sort the requests according to the LIFO principle (the latest request moves to the front, the others keep their order of arrival).
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    requests.reverse()
+    if requests:
+        requests.insert(0, requests.pop())
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
-- 
2.43.0


From 5c8ef80401f1d154dd75efdb81f8a12b49eb6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 12/72] fix: nearest origin transport control policies

The policies called get_location without the required mode, so every
simulation with them aborted; stores as transport targets had no queue length.
---
 prodsys/simulation/control.py |  4 ++--
 prodsys/simulation/store.py   | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index b79d493..0598b40 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -1010,7 +1010,7 @@ def nearest_origin_and_longest_target_queues_transport_control_policy(requests:
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
                 - x.target.get_output_queue_length()
                 )
     )
@@ -1026,7 +1026,7 @@ def nearest_origin_and_shortest_target_input_queues_transport_control_policy(req
     requests.sort(
         key=lambda x: (
             x.process.get_expected_process_time(
-                get_location(x.resource), get_location(x.origin, mode="origin")),
+                x.resource.get_location(), get_location(x.origin, mode="origin")),
             x.target.get_input_queue_length()
             )
     )
diff --git a/prodsys/simulation/store.py b/prodsys/simulation/store.py
index d1cb786..27b4929 100644
--- a/prodsys/simulation/store.py
+++ b/prodsys/simulation/store.py
@@ -117,4 +117,16 @@ class Store(Queue):
     
     def get_output_location(self):
         return self.data.output_location
+
+    def get_input_queue_length(self) -> int:
+        """
+        Returns the number of items in the store.
+        """
+        return len(self.items)
+
+    def get_output_queue_length(self) -> int:
+        """
+        Returns the number of items in the store.
+        """
+        return len(self.items)
     
-- 
2.43.0


From af7911110b99de2f543937341084a43bab34a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/72] fix: look up processes by their exact ID

get_process also matched processes whose ID is contained in the requested ID,
so that e.g. a product could be given the transport process TP1 instead of TP10.
---
 prodsys/factories/process_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/factories/process_factory.py b/prodsys/factories/process_factory.py
index 397e46d..c98cb98 100644
--- a/prodsys/factories/process_factory.py
+++ b/prodsys/factories/process_factory.py
@@ -126,7 +126,7 @@ class ProcessFactory(BaseModel):
         Returns:
             Optional[process.PROCESS_UNION]: Process object based on the given ID.
         """
-        pr = [pr for pr in self.processes if pr.process_data.ID in ID]
+        pr = [pr for pr in self.processes if pr.process_data.ID == ID]
         if not pr:
             raise ValueError(f"Process with ID {ID} not found")
         return pr.pop()
-- 
2.43.0


From 69d11178b5150e53056a5cab07430ad1da1bedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/72] fix: order of the nodes of a precedence graph
 independent of the hash seed

The nodes were taken from a set of strings, so the same system with the same
seed behaved differently in every Python process.
---
 prodsys/simulation/proces_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/proces_models.py b/prodsys/simulation/proces_models.py
index de71e67..1e96be7 100644
--- a/prodsys/simulation/proces_models.py
+++ b/prodsys/simulation/proces_models.py
@@ -135,7 +135,7 @@ def get_adjacency_matrix_from_edges(edges: List[List[str]]) -> Dict[str, List[st
     Returns:
         Dict[str, List[str]]: Adjacency matrix of the process model. The keys are the process IDs and the values are the IDs of the successor processes.
     """
-    nodes = list(set(flatten(edges)))
+    nodes = list(dict.fromkeys(flatten(edges)))
     adjacency_matrix = {}
     for node in nodes:
         successors = [edge[1] for edge in edges if edge[0] == node]
-- 
2.43.0


From d433032ebbeac66e4305cdb00232629404b0e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 15/72] fix: states without duration logged their end but not
 their start

---
 prodsys/simulation/state.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 125c1a0..8830535 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -338,6 +338,10 @@ class ProductionState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(
+                self.env.now, self.env.now, StateTypeEnum.production
+            )
         while self.done_in:
             try:
                 if self.interrupted:
@@ -450,6 +454,10 @@ class TransportState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(
+                self.env.now, self.env.now, StateTypeEnum.transport
+            )
         while self.done_in:
             try:
                 if self.interrupted:
@@ -668,6 +676,10 @@ class SetupState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(
+                self.env.now, self.env.now, StateTypeEnum.setup
+            )
         while self.done_in:
             try:
                 if self.interrupted:
@@ -761,6 +773,10 @@ class ChargingState(State):
             except exceptions.Interrupt:
                 if not self.interrupted:
                     raise RuntimeError(f"Simpy interrupt occured at {self.state_data.ID} although process is not interrupted")
+        if not self.done_in:
+            self.state_info.log_start_state(
+                self.env.now, self.env.now, StateTypeEnum.charging
+            )
         while self.done_in:
             try:
                 if self.interrupted:
-- 
2.43.0


From 1d6ff2d986350c339fead6806269220c68d54b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 16/72] fix: time per resource state with interruptions,
 overlapping breakdowns, interrupted setups and late first events

---
 prodsys/util/post_processing.py | 53 +++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index fd05ab1..dd4b307 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -146,6 +146,8 @@ class PostProcessor:
             "5": ["Process State", "start state", 6],
             "6": ["Process State", "start interrupt", 7],
             "7": ["Interface State", "start state", 8],
+            "8": ["Interface State", "end interrupt", 9],
+            "9": ["Interface State", "start interrupt", 10],
         }
 
         df_unique = pd.DataFrame.from_dict(
@@ -467,24 +469,32 @@ class PostProcessor:
         df.loc[positive_condition, "Increment"] = 1
         df.loc[negative_condition, "Increment"] = -1
 
+        # an interrupted state logs another start when it is resumed
+        interrupt_condition = df["Activity"] == "start interrupt"
+        df.loc[interrupt_condition & (df["State_type"] == "Process State"), "Increment"] = -1
+
         df["Used_Capacity"] = df.groupby(by="Resource")["Increment"].cumsum()
 
+        for column, state_type in (
+            ("Active_Breakdowns", state.StateTypeEnum.breakdown),
+            ("Active_Setups", state.StateTypeEnum.setup),
+        ):
+            state_type_condition = df["State Type"] == state_type
+            df[column] = 0
+            df.loc[state_type_condition & (df["Activity"] == "start state"), column] = 1
+            df.loc[state_type_condition & ((df["Activity"] == "end state") | interrupt_condition), column] = -1
+            df[column] = df.groupby(by="Resource")[column].cumsum()
+
         df_resource_types = df[["Resource", "State Type"]].drop_duplicates().copy()
         resource_types_dict = pd.Series(df_resource_types["State Type"].values, index=df_resource_types["Resource"].values).to_dict()
         for resource in df["Resource"].unique():
             if resource_types_dict[resource] in {state.StateTypeEnum.source, state.StateTypeEnum.sink}:
                 continue
-            example_row = (
-                df.loc[
-                    (df["Resource"] == resource)
-                    & (
-                        ((df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0))
-                        | (df["State_sorting_Index"] == 3)
-                    )
-                ]
-                .copy()
-                .head(1)
-            )
+            # every resource is in standby until its first event
+            example_row = df.loc[df["Resource"] == resource].copy().head(1)
+            example_row["Activity"] = None
+            example_row["State_sorting_Index"] = 3
+            example_row[["Increment", "Used_Capacity", "Active_Breakdowns", "Active_Setups"]] = 0
             example_row["Time"] = 0.0
             df = pd.concat([example_row, df]).reset_index(drop=True)
 
@@ -492,29 +502,28 @@ class PostProcessor:
         df["next_Time"] = df["next_Time"].fillna(df["Time"].max())
         df["time_increment"] = df["next_Time"] - df["Time"]
 
-        STANDBY_CONDITION = (
-            (df["State_sorting_Index"] == 5) & (df["Used_Capacity"] == 0)
-        ) | (df["State_sorting_Index"] == 3)
+        RESOURCE_CONDITION = ~df["State Type"].isin(
+            [state.StateTypeEnum.source, state.StateTypeEnum.sink]
+        )
+        STANDBY_CONDITION = RESOURCE_CONDITION & (df["Used_Capacity"] == 0)
         PRODUCTIVE_CONDITION = (
             (df["State_sorting_Index"] == 6)
             | (df["State_sorting_Index"] == 4)
+            | (df["State_sorting_Index"] == 7)
+            | ((df["State_sorting_Index"] == 3) & RESOURCE_CONDITION)
             | ((df["State_sorting_Index"] == 5) & df["Used_Capacity"] != 0)
         )
-        DOWN_CONDITION = ((df["State_sorting_Index"] == 7) | (
-            df["State_sorting_Index"] == 8
-        )) & (df["State Type"] == state.StateTypeEnum.breakdown)
-        SETUP_CONDITION = ((df["State_sorting_Index"] == 8)) & (
-            df["State Type"] == state.StateTypeEnum.setup
-        )
+        DOWN_CONDITION = RESOURCE_CONDITION & (df["Active_Breakdowns"] > 0)
+        SETUP_CONDITION = RESOURCE_CONDITION & (df["Active_Setups"] > 0)
         CHARGING_CONDITION = ((df["State_sorting_Index"] == 8)) & (
             df["State Type"] == state.StateTypeEnum.charging
         )
 
-        df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
         df.loc[PRODUCTIVE_CONDITION, "Time_type"] = "PR"
-        df.loc[DOWN_CONDITION, "Time_type"] = "UD"
+        df.loc[STANDBY_CONDITION, "Time_type"] = "SB"
         df.loc[SETUP_CONDITION, "Time_type"] = "ST"
         df.loc[CHARGING_CONDITION, "Time_type"] = "CR"
+        df.loc[DOWN_CONDITION, "Time_type"] = "UD"
 
         return df
 
-- 
2.43.0


From 7c9a3fe7990428100270bb03d4817da3ea32140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 17/72] fix: availability ignored the resources without
 downtime

---
 prodsys/util/post_processing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index dd4b307..659c8ee 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -838,8 +838,12 @@ class PostProcessor:
         """
         df_resource_states = self.df_aggregated_resource_states.copy()
         df_resource_states = df_resource_states.reset_index()
-        average_kpis = df_resource_states.groupby("Time_type")["percentage"].mean()
-        unplanned_downtime = average_kpis.get('UD', 0)
+        unplanned_downtime = 0
+        if not df_resource_states.empty:
+            unplanned_downtime = (
+                df_resource_states.loc[df_resource_states["Time_type"] == "UD", "percentage"].sum()
+                / df_resource_states["Resource"].nunique()
+            )
         availibility = (100 - unplanned_downtime) / 100
         # TODO: also calculate performance based on arrival rates, available time and output of the system
         # TODO: calculate scrap rate after merging scrap simulation from feature branch
-- 
2.43.0


From bd5368c23a0f0670374b5961a64a4f108ccb3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 18/72] fix: dynamic WIP KPIs raised a KeyError and dynamic
 throughput time KPIs did not name the product

---
 prodsys/util/post_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 659c8ee..8d3d66d 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -322,7 +322,7 @@ class PostProcessor:
                     name=performance_indicators.KPIEnum.DYNAMIC_THROUGHPUT_TIME,
                     context=context,
                     value=values["Throughput_time"],
-                    product=index,
+                    product=values["Product"],
                     product_type=values["Product_type"],
                     start_time=values["Start_time"],
                     end_time=values["End_time"],
@@ -1174,7 +1174,7 @@ class PostProcessor:
         df = df.loc[df["WIP_Increment"] != 0]
 
         KPIs = []
-        df["next_Time"] = df["Time"].groupby(by="Product_type").shift(-1)
+        df["next_Time"] = df.groupby(by="Product_type")["Time"].shift(-1)
         df["next_Time"] = df["next_Time"].fillna(df["Time"])
         for index, row in df.iterrows():
             if row["Product_type"] == "Total":
-- 
2.43.0


From 8c42e308bc328cb360e65bea2c104f09793c5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 19/72] fix: WIP of auxiliaries whose types contain underscores
 or each other

---
 prodsys/util/post_processing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 8d3d66d..420d42d 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -954,9 +954,9 @@ class PostProcessor:
         START_USAGE_CONDITION = df["Activity"] == "started auxiliary usage"
         FINISHED_USAGE_CONDITION = df["Activity"] == "finished auxiliary usage"
 
-        df["Auxiliary_type"] = df["Product"].apply(lambda x: x.split("_")[0])
+        df["Auxiliary_type"] = df["Product"].str.rsplit("_", n=1).str[0]
         auxiliary_types = self.get_auxiliary_types()
-        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)]
+        df = df.loc[df["Auxiliary_type"].isin(auxiliary_types)].copy()
 
         df["auxiliary_WIP_Increment"] = 0
         df.loc[START_USAGE_CONDITION, "auxiliary_WIP_Increment"] = 1
@@ -974,7 +974,7 @@ class PostProcessor:
         Returns:
             pd.DataFrame: Data frame with the WIP over time for each auxiliary.
         """
-        df = self.get_auxiliary_WIP_KPI(self.df_raw)
+        df = self.get_auxiliary_WIP_KPI(self.df_raw.copy())
         return df
 
     @cached_property
@@ -988,7 +988,7 @@ class PostProcessor:
         df = pd.DataFrame()
         auxiliary_types = self.get_auxiliary_types()
         for auxiliary_type in auxiliary_types:
-            df_temp = self.df_raw.loc[self.df_raw["Product"].str.contains(auxiliary_type)].copy()
+            df_temp = self.df_raw.loc[self.df_raw["Product"].str.rsplit("_", n=1).str[0] == auxiliary_type].copy()
             df_temp = self.get_auxiliary_WIP_KPI(df_temp)
             df = df.combine_first(df_temp)
 
@@ -1090,7 +1090,7 @@ class PostProcessor:
             pd.DataFrame: Data frame with the auxiliary types of the resources.
         """
         df = self.df_raw.loc[self.df_raw["Activity"] == "created auxiliary"]
-        auxiliary_types = df["Product"].drop_duplicates().apply(lambda x: x.split("_")[0]).drop_duplicates().to_list()
+        auxiliary_types = df["Product"].drop_duplicates().str.rsplit("_", n=1).str[0].drop_duplicates().to_list()
         return auxiliary_types
 
     @cached_property
-- 
2.43.0


From 1388cacd5ae2b8bdc28ecca4415deae07bbd33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 20/72] fix: aggregated simulation results ignored the warm-up
 cut-off of the runner

---
 prodsys/util/runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 796ad26..251e2a3 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -334,7 +334,11 @@ class Runner:
         Returns:
             dict: The aggregated simulation results.
         """
-        p = PostProcessor(df_raw=self.event_logger.get_data_as_dataframe())
+        p = PostProcessor(
+            df_raw=self.event_logger.get_data_as_dataframe(),
+            warm_up_cutoff=self.warm_up_cutoff,
+            cut_off_method=self.cut_off_method,
+        )
         return p.get_aggregated_data()
 
     def save_results_as_csv(self, save_folder="data"):
-- 
2.43.0


From 35f5eb28bbaf6afb0f195aa759c2c3d93757f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 21/72] fix: charge machines before the next process and not
 while processing, also batch machines

---
 prodsys/simulation/control.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 0598b40..9c4d6b9 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -230,16 +230,21 @@ class ProductionController(Controller):
         """
         while True:
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": "Waiting for request or process to finish"})
-            if self.resource.requires_charging:
-                yield self.env.process(self.resource.charge())
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.requested.triggered:
-                self.requested = events.Event(self.env)
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            requires_charging = self.resource.requires_charging
+            if requires_charging and not self.running_processes:
+                yield self.env.process(self.resource.charge())
+                requires_charging = False
+            if self.requested.triggered:
+                self.requested = events.Event(self.env)
+            if requires_charging:
+                # charge only after all running processes are finished
+                continue
             if self.resource.full or not self.requests or self.reserved_requests_count == len(self.requests):
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"No request ({len(self.requests)}) or resource full ({self.resource.full}) or all requests reserved ({self.reserved_requests_count == len(self.requests)})"})
                 continue
@@ -495,11 +500,18 @@ class BatchController(Controller):
             yield events.AnyOf(
                 env=self.env, events=self.running_processes + [self.requested]
             )
-            if self.requested.triggered:
-                self.requested = events.Event(self.env)
             for process in self.running_processes:
                 if not process.is_alive:
                     self.running_processes.remove(process)
+            requires_charging = self.resource.requires_charging
+            if requires_charging and not self.running_processes:
+                yield self.env.process(self.resource.charge())
+                requires_charging = False
+            if self.requested.triggered:
+                self.requested = events.Event(self.env)
+            if requires_charging:
+                # charge only after all running processes are finished
+                continue
             if self.resource.full:
                 logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Resource full ({self.resource.full})"})
                 continue
-- 
2.43.0


From ab4bc9594a45f7ecb9e586126420f36b34da0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 22/72] fix: do not start charging during a breakdown that
 starts when the previous one ends

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index 8830535..c81bd72 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -768,7 +768,7 @@ class ChargingState(State):
                     yield events.AllOf(self.env, [self.active, self.resource.active])
                     self.interrupted = False
                 debug_logging(self, f"wait for activation or activation of resource before process")
-                yield events.AllOf(self.env, [self.resource.active, self.active])
+                yield from self.wait_until_active()
                 break
             except exceptions.Interrupt:
                 if not self.interrupted:
-- 
2.43.0


From e0b74c823592ec58714c2828a1d00aa960e06799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 23/72] fix: write configuration and scenario files as UTF-8,
 as they are read

---
 prodsys/adapters/json_adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 3a40af2..002e489 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -139,7 +139,7 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         Args:
             file_path (str): File path for the production system configuration
         """
-        with open(file_path, "w") as json_file:
+        with open(file_path, "w", encoding="utf-8") as json_file:
             json_file.write(self.model_dump_json(indent=4))
     
     def write_scenario_data(self, file_path: str) -> None:
@@ -149,5 +149,5 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         Args:
             file_path (str): File path for the scenario data.
         """
-        with open(file_path, "w") as json_file:
+        with open(file_path, "w", encoding="utf-8") as json_file:
             json_file.write(self.scenario_data.model_dump_json(indent=4))
\ No newline at end of file
-- 
2.43.0


From 94f4507828947c2ddd8afbff80d2258c3eb6fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 24/72] fix: do not overwrite the saved event log of another
 run with the same time stamp

---
 prodsys/util/runner.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/prodsys/util/runner.py b/prodsys/util/runner.py
index 251e2a3..002d60d 100644
--- a/prodsys/util/runner.py
+++ b/prodsys/util/runner.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import os
 import random
 from pydantic import BaseModel, ConfigDict, Field
 from typing import List, Literal, Optional
@@ -341,19 +342,37 @@ class Runner:
         )
         return p.get_aggregated_data()
 
-    def save_results_as_csv(self, save_folder="data"):
+    def _get_new_result_file_path(self, save_folder: str, file_extension: str) -> str:
         """
-        Saves the simulation results as .csv-file marked with the time_stamp of simulation and the adapter ID if available.
+        Returns a file path marked with the time_stamp of simulation and the adapter ID if available. Since several simulations can have the same time stamp, the file path is numbered if it is already in use.
 
         Args:
-            save_folder (str, optional): The folder to save the results to. Defaults to "data".
+            save_folder (str): The folder to save the results to.
+            file_extension (str): The extension of the file.
+
+        Returns:
+            str: The path of a file that does not exist yet.
         """
         util.prepare_save_folder(save_folder + "/")
         save_name = ""
         if self.adapter.ID:
             save_name = f"{self.adapter.ID}_"
         save_name += self.time_stamp
-        self.event_logger.log_data_to_csv(filepath=f"{save_folder}/{save_name}.csv")
+        file_path = f"{save_folder}/{save_name}.{file_extension}"
+        number = 1
+        while os.path.exists(file_path):
+            file_path = f"{save_folder}/{save_name}_{number}.{file_extension}"
+            number += 1
+        return file_path
+
+    def save_results_as_csv(self, save_folder="data"):
+        """
+        Saves the simulation results as .csv-file marked with the time_stamp of simulation and the adapter ID if available.
+
+        Args:
+            save_folder (str, optional): The folder to save the results to. Defaults to "data".
+        """
+        self.event_logger.log_data_to_csv(filepath=self._get_new_result_file_path(save_folder, "csv"))
 
     def save_results_as_json(self, save_folder="data"):
         """
@@ -362,9 +381,4 @@ class Runner:
         Args:
             save_folder (str, optional): The folder to save the results to. Defaults to "data".
         """
-        util.prepare_save_folder(save_folder + "/")
-        save_name = ""
-        if self.adapter.ID:
-            save_name = f"{self.adapter.ID}_"
-        save_name += self.time_stamp
-        self.event_logger.log_data_to_json(filepath=f"{save_folder}/{save_name}.json")
+        self.event_logger.log_data_to_json(filepath=self._get_new_result_file_path(save_folder, "json"))
-- 
2.43.0


From 07a81083cc13bcf0bb485e23b2eef1ddd9a7b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 25/72] fix: reading a file without nodes or auxiliaries does
 not keep those of the previous system

---
 prodsys/adapters/json_adapter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prodsys/adapters/json_adapter.py b/prodsys/adapters/json_adapter.py
index 002e489..6b2c079 100644
--- a/prodsys/adapters/json_adapter.py
+++ b/prodsys/adapters/json_adapter.py
@@ -107,10 +107,8 @@ class JsonProductionSystemAdapter(adapter.ProductionSystemAdapter):
         self.resource_data = self.create_objects_from_configuration_data(data["resource_data"], resource_data.RESOURCE_DATA_UNION)
         self.product_data = self.create_objects_from_configuration_data(data["product_data"], product_data.ProductData)
         self.sink_data = self.create_objects_from_configuration_data(data["sink_data"], sink_data.SinkData)
-        if "node_data" in data:
-            self.node_data = self.create_objects_from_configuration_data(data["node_data"], node_data.NodeData)
-        if "auxiliary_data" in data:
-            self.auxiliary_data = self.create_objects_from_configuration_data(data["auxiliary_data"], auxiliary_data.AuxiliaryData)
+        self.node_data = self.create_objects_from_configuration_data(data.get("node_data", []), node_data.NodeData)
+        self.auxiliary_data = self.create_objects_from_configuration_data(data.get("auxiliary_data", []), auxiliary_data.AuxiliaryData)
         self.source_data = self.create_objects_from_configuration_data(data["source_data"], source_data.SourceData)
         if scenario_file_path:
             self.read_scenario(scenario_file_path)
-- 
2.43.0


From 4a58dc9aca6c1575aee3bfaa7ee295ca20441e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 26/72] fix: accept resources without processes, as produced by
 the optimization

---
 prodsys/models/resource_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 22c35b6..8caf9b9 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -96,7 +96,7 @@ class ResourceData(CoreAsset, Locatable):
             raise ValueError(
                 f"process_capacities {values['process_capacities']} must have the same length as processes {values['process_ids']}"
             )
-        if max(values["process_capacities"]) > values["capacity"]:
+        if max(values["process_capacities"], default=0) > values["capacity"]:
             raise ValueError("process_capacities must be smaller than capacity")
         return values
     
-- 
2.43.0


From 1fe977ebb5677b206162ea8a216b4a456f702641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 27/72] fix: change a control or routing policy that is not one
 of the scenario's options

---
 prodsys/optimization/adapter_manipulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 7479a20..c5276a8 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -387,9 +387,10 @@ def change_control_policy(adapter_object: adapters.ProductionSystemAdapter) -> b
             adapter_object.scenario_data.options.transport_controllers
         )
 
-    if len(possible_control_policies) < 2:
+    if resource.control_policy in possible_control_policies:
+        possible_control_policies.remove(resource.control_policy)
+    if not possible_control_policies:
         return False
-    possible_control_policies.remove(resource.control_policy)
     new_control_policy = random.choice(possible_control_policies)
     resource.control_policy = new_control_policy
     return True
@@ -406,9 +407,10 @@ def change_routing_policy(adapter_object: adapters.ProductionSystemAdapter) -> N
     possible_routing_policies = deepcopy(
         adapter_object.scenario_data.options.routing_heuristics
     )
-    if len(possible_routing_policies) < 2:
+    if source.routing_heuristic in possible_routing_policies:
+        possible_routing_policies.remove(source.routing_heuristic)
+    if not possible_routing_policies:
         return False
-    possible_routing_policies.remove(source.routing_heuristic)
     source.routing_heuristic = random.choice(possible_routing_policies)
     return True
 
-- 
2.43.0


From f033e3f7420bffb6f5725c15b00b31f27626ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 28/72] fix: keep setup and charging states of resources when
 the optimization replaces their breakdown states

---
 prodsys/optimization/util.py | 50 ++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 2d6a042..0555522 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -339,6 +339,40 @@ def create_default_breakdown_states(adapter_object: adapters.ProductionSystemAda
             )
 
 
+def replace_breakdown_states(
+    state_ids: List[str],
+    breakdown_state_ids: List[str],
+    adapter_object: adapters.ProductionSystemAdapter,
+) -> List[str]:
+    """
+    Function that replaces the breakdown states in a list of states and keeps all other states, e.g. setup and charging states.
+
+    Args:
+        state_ids (List[str]): List of state IDs of a resource.
+        breakdown_state_ids (List[str]): List of the breakdown state IDs that the resource should have.
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration.
+
+    Returns:
+        List[str]: List of state IDs with the replaced breakdown states.
+    """
+    all_breakdown_state_ids = [
+        state.ID
+        for state in adapter_object.state_data
+        if isinstance(
+            state,
+            (state_data.BreakDownStateData, state_data.ProcessBreakDownStateData),
+        )
+    ]
+    kept_state_ids = [
+        state_id
+        for state_id in state_ids
+        if state_id not in all_breakdown_state_ids or state_id in breakdown_state_ids
+    ]
+    return kept_state_ids + [
+        state_id for state_id in breakdown_state_ids if state_id not in kept_state_ids
+    ]
+
+
 def clean_out_breakdown_states_of_resources(
     adapter_object: adapters.ProductionSystemAdapter,
 ):
@@ -350,8 +384,12 @@ def clean_out_breakdown_states_of_resources(
             or BreakdownStateNamingConvention.PROCESS_MODULE_BREAKDOWN_STATE.value
             in state.ID
         ):
-            resource.state_ids = get_breakdown_state_ids_of_machine_with_processes(
-                resource.process_ids, adapter_object
+            resource.state_ids = replace_breakdown_states(
+                resource.state_ids,
+                get_breakdown_state_ids_of_machine_with_processes(
+                    resource.process_ids, adapter_object
+                ),
+                adapter_object,
             )
         elif isinstance(resource, resource_data.TransportResourceData) and any(
             True
@@ -359,9 +397,11 @@ def clean_out_breakdown_states_of_resources(
             if state.ID
             == BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
         ):
-            resource.state_ids = [
-                BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value
-            ]
+            resource.state_ids = replace_breakdown_states(
+                resource.state_ids,
+                [BreakdownStateNamingConvention.TRANSPORT_RESOURCE_BREAKDOWN_STATE.value],
+                adapter_object,
+            )
 
 
 def get_weights(
-- 
2.43.0


From f4059fd8e2b33e4b82fc72686fa798d59a4d03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 29/72] fix: partial machine crossover neither loses machines
 nor shares them between both children

---
 prodsys/optimization/adapter_manipulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index c5276a8..b42499b 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -42,8 +42,10 @@ def crossover(ind1, ind2):
         adapter2.resource_data = transport_resources_2
         if crossover_type == "partial_machine":
             min_length = min(len(machines_1), len(machines_2))
-            machines_1 = machines_1[:min_length] + machines_2[min_length:]
-            machines_2 = machines_2[:min_length] + machines_1[min_length:]
+            machines_1, machines_2 = (
+                machines_1[:min_length] + machines_2[min_length:],
+                machines_2[:min_length] + machines_1[min_length:],
+            )
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From d38f6699844f1b53c423f0c5344d661030ea8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 30/72] fix: moving a process module neither duplicates
 processes on a machine nor fails for incomplete groups

---
 prodsys/optimization/adapter_manipulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index b42499b..5d2562a 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -239,7 +239,8 @@ def remove_process_module(adapter_object: adapters.ProductionSystemAdapter) -> b
     process_module_to_delete = random.choice(process_modules)
 
     for process in process_module_to_delete:
-        machine.process_ids.remove(process)
+        if process in machine.process_ids:
+            machine.process_ids.remove(process)
     add_setup_states_to_machine(adapter_object, machine.ID)
     return True
 
@@ -269,8 +270,11 @@ def move_process_module(adapter_object: adapters.ProductionSystemAdapter) -> boo
         return False
     process_module_to_move = random.choice(grouped_process_module_IDs)
     for process_module in process_module_to_move:
+        if process_module not in from_machine.process_ids:
+            continue
         from_machine.process_ids.remove(process_module)
-        to_machine.process_ids.append(process_module)
+        if process_module not in to_machine.process_ids:
+            to_machine.process_ids.append(process_module)
     add_setup_states_to_machine(adapter_object, from_machine.ID)
     add_setup_states_to_machine(adapter_object, to_machine.ID)
     return True
-- 
2.43.0


From 3f40127f1e991e04709ea84ccc2c3a0e37bfa508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 31/72] fix: require the transport processes of required
 auxiliaries to be offered by a resource

---
 prodsys/adapters/adapter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prodsys/adapters/adapter.py b/prodsys/adapters/adapter.py
index 1d7977f..5c14a24 100644
--- a/prodsys/adapters/adapter.py
+++ b/prodsys/adapters/adapter.py
@@ -1220,7 +1220,18 @@ def assert_required_processes_in_resources_available(configuration: ProductionSy
     available = set(list(util.flatten([resource.process_ids for resource in configuration.resource_data])))
     required = util.flatten([product.processes for product in configuration.product_data if not isinstance(product.processes, dict)])
     required_dict_processes = util.flatten([list(product.processes.keys()) for product in configuration.product_data if isinstance(product.processes, dict)])
-    required = set(list(required) + list(required_dict_processes) + [product.transport_process for product in configuration.product_data])
+    required_auxiliaries = set(util.flatten([product.auxiliaries or [] for product in configuration.product_data]))
+    required_auxiliary_transport_processes = [
+        auxiliary.transport_process
+        for auxiliary in configuration.auxiliary_data
+        if auxiliary.ID in required_auxiliaries or auxiliary.auxiliary_type in required_auxiliaries
+    ]
+    required = set(
+        list(required)
+        + list(required_dict_processes)
+        + [product.transport_process for product in configuration.product_data]
+        + required_auxiliary_transport_processes
+    )
 
     required_production_processes = get_production_processes_from_ids(configuration, required)
     required_transport_processes = get_transport_processes_from_ids(configuration, required)
-- 
2.43.0


From 6d6c3beaa3fa6440eaab5babf0f9127307e28db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 32/72] fix: the optimization does not reuse the results of
 configurations with other control policies or processes

---
 prodsys/optimization/optimization.py |  3 ++-
 prodsys/optimization/util.py         | 38 ++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/prodsys/optimization/optimization.py b/prodsys/optimization/optimization.py
index 2223f7f..d8f67c0 100644
--- a/prodsys/optimization/optimization.py
+++ b/prodsys/optimization/optimization.py
@@ -7,6 +7,7 @@ from prodsys.adapters.adapter import (
 )
 from prodsys.models import performance_indicators
 from prodsys.optimization.util import (
+    get_evaluation_hash,
     get_grouped_processes_of_machine,
     get_num_of_process_modules,
     get_required_auxiliaries,
@@ -267,7 +268,7 @@ def evaluate(
     """
 
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
-    adapter_object_hash = adapter_object.hash()
+    adapter_object_hash = get_evaluation_hash(adapter_object)
     if adapter_object_hash in solution_dict["hashes"]:
         evaluated_adapter_generation = solution_dict["hashes"][adapter_object_hash][
             "generation"
diff --git a/prodsys/optimization/util.py b/prodsys/optimization/util.py
index 0555522..5e5f0ce 100644
--- a/prodsys/optimization/util.py
+++ b/prodsys/optimization/util.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from typing import Dict, List, Union, Tuple, Literal
 from enum import Enum
+from hashlib import md5
 import logging
 
 from prodsys.express.state import ProcessBreakdownState
@@ -509,6 +510,38 @@ def adjust_process_capacities(
         resource.process_capacities = [resource.capacity] * len(resource.process_ids)
 
 
+def get_evaluation_hash(adapter_object: adapters.ProductionSystemAdapter) -> str:
+    """
+    Function that returns a hash to identify configurations which lead to the same evaluation. In contrast to the hash of the
+    production system, it also distinguishes control policies, batch sizes, states and the processes that are assigned to the resources.
+
+    Args:
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration.
+
+    Returns:
+        str: Hash of the configuration.
+    """
+    resources = []
+    for resource in adapter_object.resource_data:
+        process_capacities = resource.process_capacities or [None] * len(
+            resource.process_ids
+        )
+        resources.append(
+            str(
+                (
+                    resource.hash(adapter_object),
+                    str(resource.control_policy),
+                    getattr(resource, "batch_size", None),
+                    sorted(zip(resource.process_ids, map(str, process_capacities))),
+                    sorted(resource.state_ids),
+                )
+            )
+        )
+    return md5(
+        "".join([adapter_object.hash(), *sorted(resources)]).encode("utf-8")
+    ).hexdigest()
+
+
 def document_individual(
     solution_dict: Dict[str, Union[list, str]],
     save_folder: str,
@@ -517,8 +550,9 @@ def document_individual(
     adapter_object: adapters.ProductionSystemAdapter = individual[0]
     current_generation = solution_dict["current_generation"]
 
-    if adapter_object.hash() not in solution_dict["hashes"]:
-        solution_dict["hashes"][adapter_object.hash()] = {
+    adapter_object_hash = get_evaluation_hash(adapter_object)
+    if adapter_object_hash not in solution_dict["hashes"]:
+        solution_dict["hashes"][adapter_object_hash] = {
             "generation": current_generation,
             "ID": adapter_object.ID,
         }
-- 
2.43.0


From 301cd586062acee13c6b684ff3d3e45e35a4f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 33/72] fix: a configuration that is changed by a mutation gets
 a new ID

---
 prodsys/optimization/adapter_manipulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 5d2562a..6395393 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -14,6 +14,7 @@ from prodsys.optimization.util import (
     add_setup_states_to_machine,
     adjust_process_capacities,
     clean_out_breakdown_states_of_resources,
+    get_evaluation_hash,
     get_grouped_processes_of_machine,
     get_required_auxiliaries,
 )
@@ -452,11 +453,13 @@ def get_mutation_operations(
 def mutation(individual):
     mutation_operation = random.choice(get_mutation_operations(individual[0]))
     adapter_object = individual[0]
-    if mutation_operation(adapter_object):
-        individual[0].ID = str(uuid1())
+    hash_before_mutation = get_evaluation_hash(adapter_object)
+    mutated = mutation_operation(adapter_object)
     add_default_queues_to_resources(adapter_object)
     clean_out_breakdown_states_of_resources(adapter_object)
     adjust_process_capacities(adapter_object)
+    if mutated or get_evaluation_hash(adapter_object) != hash_before_mutation:
+        individual[0].ID = str(uuid1())
 
     return (individual,)
 
-- 
2.43.0


From 5546a3efc3b40f8a5205b43224a68d3cebdd1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 34/72] fix: moves of auxiliaries leave a production system
 without required auxiliaries unchanged

---
 prodsys/optimization/adapter_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 6395393..f199aa0 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -340,6 +340,8 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was added, False otherwise (if adding is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     queue = [
@@ -364,6 +366,8 @@ def remove_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         bool: True if an auxiliary component was removed, False otherwise (if removing is not possible due to constraint violations).
     """
     required_auxiliaries = get_required_auxiliaries(adapter_object)
+    if not required_auxiliaries:
+        return False
     auxiliary = random.choice(required_auxiliaries)
     storage_index = random.choice(range(len(auxiliary.storages)))
     if auxiliary.quantity_in_storages[storage_index] == 0:
-- 
2.43.0


From a03432b1428e497e8ebf0ba5127866ef88f64cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 35/72] fix: a crossover does not create configurations with
 two machines of the same ID

---
 prodsys/optimization/adapter_manipulation.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index f199aa0..043a308 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -26,6 +26,22 @@ from uuid import uuid1
 from prodsys.util.util import flatten
 
 
+def rename_duplicate_resources(
+    resources: List[resource_data.RESOURCE_DATA_UNION],
+) -> None:
+    """
+    Function that assigns a new ID to every resource whose ID is already used by a previous resource in the list.
+
+    Args:
+        resources (List[resource_data.RESOURCE_DATA_UNION]): List of resources.
+    """
+    used_ids = set()
+    for resource in resources:
+        if resource.ID in used_ids:
+            resource.ID = str(uuid1())
+        used_ids.add(resource.ID)
+
+
 def crossover(ind1, ind2):
     ind1[0].ID = str(uuid1())
     ind2[0].ID = str(uuid1())
@@ -47,6 +63,8 @@ def crossover(ind1, ind2):
                 machines_1[:min_length] + machines_2[min_length:],
                 machines_2[:min_length] + machines_1[min_length:],
             )
+            rename_duplicate_resources(machines_1)
+            rename_duplicate_resources(machines_2)
         adapter1.resource_data += machines_2
         adapter2.resource_data += machines_1
 
-- 
2.43.0


From 17c8801aa0316c862137b1c0c090dba173cafe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 36/72] fix: moves of auxiliaries respect the capacity of
 storages that several auxiliaries share

---
 prodsys/optimization/adapter_manipulation.py | 54 +++++++++++++++-----
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/prodsys/optimization/adapter_manipulation.py b/prodsys/optimization/adapter_manipulation.py
index 043a308..75f9894 100644
--- a/prodsys/optimization/adapter_manipulation.py
+++ b/prodsys/optimization/adapter_manipulation.py
@@ -347,6 +347,29 @@ def move_machine(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     return True
 
 
+def get_stored_quantity(
+    adapter_object: adapters.ProductionSystemAdapter, storage_id: str
+) -> int:
+    """
+    Function that returns the number of auxiliary components of all types in a storage.
+
+    Args:
+        adapter_object (adapters.ProductionSystemAdapter): Production system configuration.
+        storage_id (str): ID of the storage.
+
+    Returns:
+        int: Number of auxiliary components in the storage.
+    """
+    return sum(
+        quantity
+        for auxiliary in adapter_object.auxiliary_data
+        for storage, quantity in zip(
+            auxiliary.storages, auxiliary.quantity_in_storages
+        )
+        if storage == storage_id
+    )
+
+
 def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
     """
     Function that adds a random auxiliary component to the production system.
@@ -367,7 +390,7 @@ def add_auxiliary(adapter_object: adapters.ProductionSystemAdapter) -> bool:
         for queue in adapter_object.queue_data
         if queue.ID == auxiliary.storages[storage_index]
     ][0]
-    if queue.capacity == auxiliary.quantity_in_storages[storage_index]:
+    if queue.capacity and get_stored_quantity(adapter_object, queue.ID) >= queue.capacity:
         return False
     auxiliary.quantity_in_storages[storage_index] += 1
     return True
@@ -546,20 +569,25 @@ def get_random_auxiliary_capacity(
     adapter_object: adapters.ProductionSystemAdapter,
 ) -> adapters.ProductionSystemAdapter:
     required_auxiliaries = get_required_auxiliaries(adapter_object)
-    available_storage_capacities = {
-        queue.ID: queue.capacity for queue in adapter_object.queue_data
+    storage_capacities = {
+        queue.ID: int(queue.capacity) for queue in adapter_object.queue_data
     }
-    for auxiliary in required_auxiliaries:
-        for storage_index, storage in enumerate(auxiliary.storages):
-            if available_storage_capacities[storage] == 0:
-                continue
-            random_capacity = random.choice(
-                range(1, available_storage_capacities[storage] + 1)
+    finite_storages = [
+        (auxiliary, storage_index, storage)
+        for auxiliary in required_auxiliaries
+        for storage_index, storage in enumerate(auxiliary.storages)
+        if storage_capacities[storage]
+    ]
+    for auxiliary, storage_index, _ in finite_storages:
+        auxiliary.quantity_in_storages[storage_index] = 0
+    for auxiliary, storage_index, storage in finite_storages:
+        free_capacity = storage_capacities[storage] - get_stored_quantity(
+            adapter_object, storage
+        )
+        if free_capacity > 0:
+            auxiliary.quantity_in_storages[storage_index] = random.choice(
+                range(1, free_capacity + 1)
             )
-            if available_storage_capacities[storage] - random_capacity < 0:
-                random_capacity = available_storage_capacities[storage]
-            auxiliary.quantity_in_storages[storage_index] = random_capacity
-            available_storage_capacities[storage] -= random_capacity
     return adapter_object
 
 
-- 
2.43.0


From d0adef0988ce4ec013dca3993b639a19d7c71685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 37/72] fix: the service refuses to add an object whose ID
 already exists

---
 app/dao/process_dao.py    | 13 +++++--------
 app/dao/product_dao.py    | 13 +++++--------
 app/dao/queue_dao.py      | 13 +++++--------
 app/dao/resources_dao.py  | 13 +++++--------
 app/dao/sink_dao.py       | 13 +++++--------
 app/dao/source_dao.py     | 13 +++++--------
 app/dao/state_dao.py      | 11 ++++-------
 app/dao/time_model_dao.py | 13 +++++--------
 8 files changed, 39 insertions(+), 63 deletions(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index c75b672..d45280e 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -21,14 +21,11 @@ def get(
 def add(
     project_id: str, adapter_id: str, process: processes_data.PROCESS_DATA_UNION
 ) -> processes_data.PROCESS_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, process.ID):
-            raise HTTPException(
-                404,
-                f"Process with ID {process.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == process.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Process with ID {process.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.process_data.append(process)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index 6802fff..f61b686 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -21,14 +21,11 @@ def get(project_id: str, adapter_id: str, product_id: str) -> product_data.Produ
 def add(
     project_id: str, adapter_id: str, product: product_data.ProductData
 ) -> product_data.ProductData:
-    try:
-        if get(project_id, adapter_id, product.ID):
-            raise HTTPException(
-                404,
-                f"Product with ID {product.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == product.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Product with ID {product.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.product_data.append(product)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/queue_dao.py b/app/dao/queue_dao.py
index 41e66bc..57ddb23 100644
--- a/app/dao/queue_dao.py
+++ b/app/dao/queue_dao.py
@@ -21,14 +21,11 @@ def get(project_id: str, adapter_id: str, queue_id: str) -> queue_data.QueueData
 def add(
     project_id: str, adapter_id: str, queue: queue_data.QueueData
 ) -> queue_data.QueueData:
-    try:
-        if get(project_id, adapter_id, queue.ID):
-            raise HTTPException(
-                404,
-                f"Queue with ID {queue.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == queue.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Queue with ID {queue.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.queue_data.append(queue)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/resources_dao.py b/app/dao/resources_dao.py
index 2388b1d..8f97a9e 100644
--- a/app/dao/resources_dao.py
+++ b/app/dao/resources_dao.py
@@ -40,14 +40,11 @@ def get(
 def add(
     project_id: str, adapter_id: str, resource: resource_data.RESOURCE_DATA_UNION
 ) -> resource_data.RESOURCE_DATA_UNION:
-    try:
-        if get(project_id, adapter_id, resource.ID):
-            raise HTTPException(
-                404,
-                f"Resource with ID {resource.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == resource.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Resource with ID {resource.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.resource_data.append(resource)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/sink_dao.py b/app/dao/sink_dao.py
index 68cc1ea..c6965e1 100644
--- a/app/dao/sink_dao.py
+++ b/app/dao/sink_dao.py
@@ -21,14 +21,11 @@ def get(project_id: str, adapter_id: str, sink_id: str) -> sink_data.SinkData:
 def add(
     project_id: str, adapter_id: str, sink: sink_data.SinkData
 ) -> sink_data.SinkData:
-    try:
-        if get(project_id, adapter_id, sink.ID):
-            raise HTTPException(
-                404,
-                f"Sink with ID {sink.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == sink.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Sink with ID {sink.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.sink_data.append(sink)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/source_dao.py b/app/dao/source_dao.py
index 78a9ded..8a91d0c 100644
--- a/app/dao/source_dao.py
+++ b/app/dao/source_dao.py
@@ -21,14 +21,11 @@ def get(project_id: str, adapter_id: str, source_id: str) -> source_data.SourceD
 def add(
     project_id: str, adapter_id: str, source: source_data.SourceData
 ) -> source_data.SourceData:
-    try:
-        if get(project_id, adapter_id, source.ID):
-            raise HTTPException(
-                404,
-                f"Source with ID {source.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == source.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Source with ID {source.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.source_data.append(source)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/state_dao.py b/app/dao/state_dao.py
index 97bc685..2df7253 100644
--- a/app/dao/state_dao.py
+++ b/app/dao/state_dao.py
@@ -18,13 +18,10 @@ def get(project_id: str, adapter_id: str, state_id: str) -> state_data.STATE_DAT
 
 
 def add(project_id: str, adapter_id: str, state: state_data.STATE_DATA_UNION):
-    try:
-        if get(project_id, adapter_id, state.ID):
-            raise HTTPException(
-                404, f"State with ID {state.ID} already exists. Try updating instead."
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == state.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404, f"State with ID {state.ID} already exists. Try updating instead."
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.state_data.append(state)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
diff --git a/app/dao/time_model_dao.py b/app/dao/time_model_dao.py
index 78e47cf..8c4df18 100644
--- a/app/dao/time_model_dao.py
+++ b/app/dao/time_model_dao.py
@@ -23,14 +23,11 @@ def get(
 def add(
     project_id: str, adapter_id: str, time_model: time_model_data.TIME_MODEL_DATA
 ) -> time_model_data.TIME_MODEL_DATA:
-    try:
-        if get(project_id, adapter_id, time_model.ID):
-            raise HTTPException(
-                404,
-                f"Time model with ID {time_model.ID} already exists. Try updating instead.",
-            )
-    except HTTPException:
-        pass
+    if any(existing.ID == time_model.ID for existing in get_all(project_id, adapter_id)):
+        raise HTTPException(
+            404,
+            f"Time model with ID {time_model.ID} already exists. Try updating instead.",
+        )
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.time_model_data.append(time_model)
     prodsys_backend.update_adapter(project_id, adapter_id, adapter)
-- 
2.43.0


From 8204a38718f753d6b8d6273dea13bdc5e9c47310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 38/72] fix: deleting a process of an adapter does not fail

---
 app/dao/process_dao.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/dao/process_dao.py b/app/dao/process_dao.py
index d45280e..78188e0 100644
--- a/app/dao/process_dao.py
+++ b/app/dao/process_dao.py
@@ -52,6 +52,6 @@ def delete(project_id: str, adapter_id: str, process_id: str):
     for idx, process in enumerate(adapter.process_data):
         if process.ID == process_id:
             adapter.process_data.pop(idx)
-            prodsys_backend.update_adapter(project_id, adapter)
+            prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
     raise HTTPException(404, f"Process with ID {process_id} not found.")
-- 
2.43.0


From 7e87e18bb52fef2c7d8b2183c645ff3f7a80b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 39/72] fix: deleting an unknown product is answered with an
 error

---
 app/dao/product_dao.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/dao/product_dao.py b/app/dao/product_dao.py
index f61b686..5310bdb 100644
--- a/app/dao/product_dao.py
+++ b/app/dao/product_dao.py
@@ -51,3 +51,4 @@ def delete(project_id: str, adapter_id: str, product_id: str):
             adapter.product_data.pop(idx)
             prodsys_backend.update_adapter(project_id, adapter_id, adapter)
             return
+    raise HTTPException(404, f"Product with ID {product_id} not found.")
-- 
2.43.0


From 0cd95970be3e204618c66c596596d71ed5da93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 40/72] fix: updating or deleting an unknown objective is
 answered with a not found error

---
 app/dao/scenario_dao.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index ccb8600..20c20ba 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -140,7 +140,7 @@ def update_objective(
         if objective.name == existing_objective.name:
             scenario.objectives[idx] = objective
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective.name} not found for scenario of adapter {adapter_id}.",
     )
@@ -154,7 +154,7 @@ def delete_objective(
         if objective.name == objective_name:
             scenario.objectives.pop(idx)
             return update(project_id, adapter_id, scenario)
-    HTTPException(
+    raise HTTPException(
         404,
         f"Objective with name {objective_name} not found for scenario of adapter {adapter_id}.",
     )
-- 
2.43.0


From 69ff7dd7fc41a7d627046a7f4f9317577718c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 41/72] fix: throughput time is an allowed objective of a
 scenario

---
 app/dao/scenario_dao.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dao/scenario_dao.py b/app/dao/scenario_dao.py
index 20c20ba..4e67764 100644
--- a/app/dao/scenario_dao.py
+++ b/app/dao/scenario_dao.py
@@ -103,7 +103,7 @@ def add_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
@@ -129,7 +129,7 @@ def update_objective(
     if not objective.name in [
         KPIEnum.COST,
         KPIEnum.THROUGHPUT,
-        KPIEnum.THROUGHPUT,
+        KPIEnum.TRHOUGHPUT_TIME,
         KPIEnum.WIP,
     ]:
         raise HTTPException(
-- 
2.43.0


From e967cab49ba1cfea90b3f0fbdd27624488e7f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 42/72] fix: creating and updating a process answers with the
 process

---
 app/routers/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/processes.py b/app/routers/processes.py
index 6a72590..9da0e95 100644
--- a/app/routers/processes.py
+++ b/app/routers/processes.py
@@ -39,7 +39,7 @@ async def get_processes(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully created process",
@@ -73,7 +73,7 @@ async def get_process(project_id: str, adapter_id: str, process_id: str):
 
 @router.put(
     "/{process_id}",
-    response_model=List[processes_data.PROCESS_DATA_UNION],
+    response_model=processes_data.PROCESS_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully updated process",
-- 
2.43.0


From 46726b4c2e870416ad3e880ecf31fcd99b75472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 43/72] fix: the adapters of a project can be listed

---
 app/routers/adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/routers/adapters.py b/app/routers/adapters.py
index 8b9d33e..0c15a8e 100644
--- a/app/routers/adapters.py
+++ b/app/routers/adapters.py
@@ -1,4 +1,4 @@
-from typing import List, Dict
+from typing import List
 
 
 from fastapi import APIRouter
@@ -14,7 +14,7 @@ router = APIRouter(
 )
 
 
-@router.get("/", response_model=Dict[str, JsonProductionSystemAdapter])
+@router.get("/", response_model=List[JsonProductionSystemAdapter])
 async def get_adapters(project_id: str) -> List[JsonProductionSystemAdapter]:
     return prodsys_backend.get_adapters(project_id)
 
-- 
2.43.0


From ddacde24e720d63a208091dce2a07752d96f8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 44/72] fix: stores keep their locations in the service

---
 app/routers/queue.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/app/routers/queue.py b/app/routers/queue.py
index 3048ce5..f161d29 100644
--- a/app/routers/queue.py
+++ b/app/routers/queue.py
@@ -22,7 +22,7 @@ router = APIRouter(
 
 @router.get(
     "/",
-    response_model=List[queue_data.QueueData],
+    response_model=List[queue_data.QUEUE_DATA_UNION],
     responses={
         200: {
             "description": "Sucessfully returned queues",
@@ -37,22 +37,22 @@ async def get_queues(project_id: str, adapter_id: str):
 
 @router.post(
     "/",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def create_queue(
     project_id: str,
     adapter_id: str,
     queue: Annotated[
-        queue_data.QueueData,
+        queue_data.QUEUE_DATA_UNION,
         Body(examples=queue_data.QueueData.model_config["json_schema_extra"]["examples"]),
     ],
-) -> queue_data.QueueData:
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.add(project_id, adapter_id, queue)
 
 
 @router.get(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
     responses={
         200: {
             "description": "Sucessfully returned queue",
@@ -67,14 +67,14 @@ async def get_queue(project_id: str, adapter_id: str, queue_id: str):
 
 @router.put(
     "/{queue_id}",
-    response_model=queue_data.QueueData,
+    response_model=queue_data.QUEUE_DATA_UNION,
 )
 async def update_queue(
     project_id: str,
     adapter_id: str,
     queue_id: str,
-    queue: Annotated[queue_data.QueueData, Body(examples=QUEUE_LIST_EXAMPLE)],
-) -> queue_data.QueueData:
+    queue: Annotated[queue_data.QUEUE_DATA_UNION, Body(examples=QUEUE_LIST_EXAMPLE)],
+) -> queue_data.QUEUE_DATA_UNION:
     return queue_dao.update(project_id, adapter_id, queue_id, queue)
 
 
-- 
2.43.0


From f45ff1c012795676a2946e699d9aeec9bf575f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 45/72] fix: updating with an ID that another project or
 adapter has does not lose data

---
 app/backends/in_memory.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 4b17a07..a52f4ff 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -27,6 +27,9 @@ class InMemoryBackend:
         return project
 
     def update_project(self, project_id: str, project: Project) -> Project:
+        self.get_project(project_id)
+        if project.ID != project_id and project.ID in self.database:
+            raise HTTPException(409, f"Project {project.ID} already exists.")
         self.delete_project(project_id)
         return self.create_project(project)
 
@@ -54,8 +57,12 @@ class InMemoryBackend:
         return adapter
 
     def update_adapter(self, project_id: str, adapter_id: str, adapter: JsonProductionSystemAdapter) -> JsonProductionSystemAdapter:
-        self.delete_adapter(project_id, adapter_id)
-        return self.create_adapter(project_id, adapter)
+        project = self.get_project(project_id)
+        self.get_adapter(project_id, adapter_id)
+        if adapter.ID != adapter_id and adapter.ID in [a.ID for a in project.adapters]:
+            raise HTTPException(409, f"Adapter {adapter.ID} already exists in project {project_id}.")
+        project.adapters[[a.ID for a in project.adapters].index(adapter_id)] = adapter
+        return adapter
 
     def delete_adapter(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
-- 
2.43.0


From 58f43c5ba19f9758daa46195913bc39727ceccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 46/72] fix: the performance of a deleted adapter is deleted

---
 app/backends/in_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index a52f4ff..8ebf6b2 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -69,8 +69,8 @@ class InMemoryBackend:
         for adapter_index, adapter in enumerate(project.adapters):
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
+                project.performances.pop(adapter_id, None)
                 return
-        self.delete_performance(project_id, adapter_id)
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
 
-- 
2.43.0


From 6166b36db1c71d5923cd2883e333416c5f88a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 47/72] fix: every adapter of a project has its own
 post-processor

---
 app/backends/in_memory.py | 17 +++++++++--------
 app/models/project.py     |  5 ++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/app/backends/in_memory.py b/app/backends/in_memory.py
index 8ebf6b2..1b27807 100644
--- a/app/backends/in_memory.py
+++ b/app/backends/in_memory.py
@@ -70,6 +70,7 @@ class InMemoryBackend:
             if adapter.ID == adapter_id:
                 del project.adapters[adapter_index]
                 project.performances.pop(adapter_id, None)
+                project.post_processors.pop(adapter_id, None)
                 return
         raise HTTPException(404, f"Adapter {adapter_id} not found in project {project_id}")
     
@@ -107,29 +108,29 @@ class InMemoryBackend:
     def get_post_processor(self, project_id: str, adapter_id: str) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in adapter {adapter_id} of project {project_id}")
-        return project.post_processor
+        return project.post_processors[adapter_id]
 
     def create_post_processor(self, project_id: str, adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if project.post_processor:
+        if adapter_id in project.post_processors:
             raise HTTPException(409, f"PostProcessor already exists in project {project_id}. Try updating it with put.")
-        project.post_processor = post_processor
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def update_post_processor(self, project_id: str,  adapter_id: str, post_processor: PostProcessor) -> PostProcessor:
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in project {project_id}. Try creating it with post.")
-        project.post_processor = post_processor
+        project.post_processors[adapter_id] = post_processor
         return post_processor
 
     def delete_post_processor(self, project_id: str, adapter_id: str):
         project = self.get_project(project_id)
         adapter = self.get_adapter(project_id, adapter_id)
-        if not project.post_processor:
+        if adapter_id not in project.post_processors:
             raise HTTPException(404, f"PostProcessor not found in project {project_id}.")
-        project.post_processor = None
\ No newline at end of file
+        del project.post_processors[adapter_id]
\ No newline at end of file
diff --git a/app/models/project.py b/app/models/project.py
index 4056127..211c41c 100644
--- a/app/models/project.py
+++ b/app/models/project.py
@@ -20,7 +20,7 @@ class Project(BaseModel):
     adapters: List[prodsys.adapters.JsonProductionSystemAdapter] = []
     # TODO: maybe allow saving performances in project also for adapter_id and specific seed
     performances: Optional[Dict[str, Performance]] = {}
-    post_processor: Optional[PostProcessor] = Field(default=None, exclude=True)
+    post_processors: Dict[str, PostProcessor] = Field(default={}, exclude=True)
     #TODO: make wrapper for postprocessor for schema
 
     model_config = ConfigDict(
@@ -35,8 +35,7 @@ class Project(BaseModel):
                     "adapters": prodsys.adapters.ProductionSystemAdapter.model_config["json_schema_extra"]["examples"],
                     "performances": {
                         "Example Adapter": Performance.model_config["json_schema_extra"]["examples"][0]
-                    },
-                    "post_processor": None
+                    }
                 }
             ]
         }
-- 
2.43.0


From 690ca26707789614ef5ccdbbba05b3fb822417bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 48/72] fix: the progress of simulations of adapters with the
 same ID in different projects is not mixed up

---
 app/dependencies.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 49acda7..0f15af3 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,5 +1,5 @@
 import time
-from typing import Dict
+from typing import Dict, Tuple
 
 import os
 import json
@@ -30,17 +30,17 @@ def get_backend() -> Backend:
 
 
 prodsys_backend = get_backend()
-runners: Dict[str, prodsys.runner.Runner] = {}
+runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
 def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressReport:
-    if adapter_id not in runners:
+    if (project_id, adapter_id) not in runners:
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
         )
-    steps_done = runners[adapter_id].env.pbar.n
-    steps_total = runners[adapter_id].env.pbar.total
-    time_done = time.time() - runners[adapter_id].env.pbar.start_t
+    steps_done = runners[(project_id, adapter_id)].env.pbar.n
+    steps_total = runners[(project_id, adapter_id)].env.pbar.total
+    time_done = time.time() - runners[(project_id, adapter_id)].env.pbar.start_t
 
     ratio_done = steps_done / steps_total
     expected_total_time = time_done / ratio_done
@@ -57,7 +57,7 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
     adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
-    runners[adapter_id] = runner_object
+    runners[(project_id, adapter_id)] = runner_object
     runner_object.initialize_simulation()
     runner_object.run(run_length)
     performance = runner_object.get_performance_data()
-- 
2.43.0


From 7e3278a8f58cf777fd42b22db41c84c6f59a5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 49/72] fix: the progress of a simulation that has not advanced
 yet can be read

---
 app/dependencies.py           | 11 ++++++++---
 app/models/progress_report.py | 10 ++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 0f15af3..3e2c3de 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -38,11 +38,16 @@ def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressRepo
         raise HTTPException(
             404, f"No simulation was yet started for adapter {adapter_id} in project {project_id}."
         )
-    steps_done = runners[(project_id, adapter_id)].env.pbar.n
-    steps_total = runners[(project_id, adapter_id)].env.pbar.total
-    time_done = time.time() - runners[(project_id, adapter_id)].env.pbar.start_t
+    progress_bar = runners[(project_id, adapter_id)].env.pbar
+    if progress_bar is None:
+        return ProgressReport(ratio_done=0, time_done=0)
+    steps_done = progress_bar.n
+    steps_total = progress_bar.total
+    time_done = time.time() - progress_bar.start_t
 
     ratio_done = steps_done / steps_total
+    if not ratio_done:
+        return ProgressReport(ratio_done=0, time_done=round(time_done, 2))
     expected_total_time = time_done / ratio_done
     expected_time_left = expected_total_time - time_done
 
diff --git a/app/models/progress_report.py b/app/models/progress_report.py
index d99c0c2..784c054 100644
--- a/app/models/progress_report.py
+++ b/app/models/progress_report.py
@@ -1,3 +1,5 @@
+from typing import Optional
+
 from pydantic import BaseModel
 
 
@@ -7,13 +9,13 @@ class ProgressReport(BaseModel):
 
     Args:
         time_done (float): The time that is already done in seconds.
-        expected_time_left (float): The expected time left to finish the task in seconds.
-        expected_total_time (float): The expected total time to finish the task in seconds.
+        expected_time_left (Optional[float]): The expected time left to finish the task in seconds. None as long as no progress was made.
+        expected_total_time (Optional[float]): The expected total time to finish the task in seconds. None as long as no progress was made.
         ratio_done (float): The ratio of the task that is done.
     """
     ratio_done: float
     time_done: float
-    expected_time_left: float
-    expected_total_time: float
+    expected_time_left: Optional[float] = None
+    expected_total_time: Optional[float] = None
 
     
\ No newline at end of file
-- 
2.43.0


From 123a87874e17ef67f85ef18b2653e5e6b4f382af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 50/72] fix: a simulation does not change the seed of the
 stored adapter and does not see changes while it runs

---
 app/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index 3e2c3de..fb49440 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -59,7 +59,7 @@ def get_progress_of_simulation(project_id: str, adapter_id: str) -> ProgressRepo
     )
 
 def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: int):
-    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id).model_copy(deep=True)
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
     runners[(project_id, adapter_id)] = runner_object
-- 
2.43.0


From 2c6791a4792d945b66beafacab00a4683c2a10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 51/72] fix: simulations that run at the same time in the
 service do not influence each other

---
 app/dependencies.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/app/dependencies.py b/app/dependencies.py
index fb49440..5338b56 100644
--- a/app/dependencies.py
+++ b/app/dependencies.py
@@ -1,3 +1,4 @@
+import threading
 import time
 from typing import Dict, Tuple
 
@@ -30,6 +31,8 @@ def get_backend() -> Backend:
 
 
 prodsys_backend = get_backend()
+# The random numbers of simulations come from global generators, so that only one simulation can run at a time.
+simulation_lock = threading.Lock()
 runners: Dict[Tuple[str, str], prodsys.runner.Runner] = {}
 
 
@@ -63,18 +66,19 @@ def run_simulation(project_id: str, adapter_id: str, run_length: float, seed: in
     adapter.seed = seed
     runner_object = prodsys.runner.Runner(adapter=adapter)
     runners[(project_id, adapter_id)] = runner_object
-    runner_object.initialize_simulation()
-    runner_object.run(run_length)
-    performance = runner_object.get_performance_data()
-    try:
-        prodsys_backend.create_performance(project_id, adapter_id, performance)
-    except:
-        prodsys_backend.update_performance(project_id, adapter_id, performance)
-    post_processor = runner_object.get_post_processor()
-    try:
-        prodsys_backend.create_post_processor(project_id, adapter_id, post_processor)
-    except:
-        prodsys_backend.update_post_processor(project_id, adapter_id, post_processor)
+    with simulation_lock:
+        runner_object.initialize_simulation()
+        runner_object.run(run_length)
+        performance = runner_object.get_performance_data()
+        try:
+            prodsys_backend.create_performance(project_id, adapter_id, performance)
+        except:
+            prodsys_backend.update_performance(project_id, adapter_id, performance)
+        post_processor = runner_object.get_post_processor()
+        try:
+            prodsys_backend.create_post_processor(project_id, adapter_id, post_processor)
+        except:
+            prodsys_backend.update_post_processor(project_id, adapter_id, post_processor)
 
 def get_post_processor(
     project_id: str, adapter_id: str
-- 
2.43.0


From d8a6f88feb3616f59cc18ab2c3e6c81202e1eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 52/72] fix: starting a simulation of an unknown adapter is
 answered with an error

---
 app/routers/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/routers/simulation.py b/app/routers/simulation.py
index 7444436..5394c34 100644
--- a/app/routers/simulation.py
+++ b/app/routers/simulation.py
@@ -23,8 +23,8 @@ async def simulate(
     background_tasks: BackgroundTasks,
     seed: Optional[int] = 0,
 ):
+    adapter = prodsys_backend.get_adapter(project_id, adapter_id)
     if not run_length:
-        adapter = prodsys_backend.get_adapter(project_id, adapter_id)
         if adapter.scenario_data and adapter.scenario_data.info:
             run_length = adapter.scenario_data.info.time_range
         else:
-- 
2.43.0


From 4545b6241e031ceebcdede7209e24205d00256de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 53/72] fix: product data that is not an object is refused with
 a validation error

---
 prodsys/models/product_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prodsys/models/product_data.py b/prodsys/models/product_data.py
index 957f90c..51c8423 100644
--- a/prodsys/models/product_data.py
+++ b/prodsys/models/product_data.py
@@ -120,6 +120,8 @@ class ProductData(CoreAsset):
                    
     @model_validator(mode="before")
     def check_processes(cls, values):
+        if not isinstance(values, dict):
+            return values
         if "product_type" in values and values["product_type"]:
             values["ID"] = values["product_type"]
         else:
-- 
2.43.0


From 7215697ab80bf7ff55beb1cdc888e0ec4f013c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 54/72] fix: resource data without a required field is refused
 with a validation error

---
 prodsys/models/resource_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/models/resource_data.py b/prodsys/models/resource_data.py
index 8caf9b9..a76cc5b 100644
--- a/prodsys/models/resource_data.py
+++ b/prodsys/models/resource_data.py
@@ -88,7 +88,7 @@ class ResourceData(CoreAsset, Locatable):
 
     @model_validator(mode="before")
     def check_process_capacity(cls, values):
-        if not isinstance(values, dict):
+        if not isinstance(values, dict) or not "capacity" in values or not "process_ids" in values:
             return values
         if not "process_capacities" in values or values["process_capacities"] is None:
             values["process_capacities"] = [values["capacity"] for _ in values["process_ids"]]
@@ -198,7 +198,7 @@ class ProductionResourceData(ResourceData, InOutLocatable):
 
     @model_validator(mode="before")
     def validate_batch_size(cls, data: Any):
-        if not isinstance(data, dict):
+        if not isinstance(data, dict) or not "controller" in data or not "capacity" in data:
             return data
         if ("batch_size" in data and data["batch_size"] is not None) and data["controller"] != ControllerEnum.BatchController:
             raise ValueError("Batch size can only be set for resources with a BatchController.")
-- 
2.43.0


From 0bd7190f5b6156248a51563274f979c62f21c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 55/72] fix: projects that are created without performances can
 store them

---
 app/models/project.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/models/project.py b/app/models/project.py
index 211c41c..b6eae47 100644
--- a/app/models/project.py
+++ b/app/models/project.py
@@ -1,5 +1,5 @@
 from typing import Dict, Optional
-from pydantic import BaseModel, ConfigDict, Field
+from pydantic import BaseModel, ConfigDict, Field, field_validator
 from typing import List
 
 import prodsys
@@ -21,6 +21,12 @@ class Project(BaseModel):
     # TODO: maybe allow saving performances in project also for adapter_id and specific seed
     performances: Optional[Dict[str, Performance]] = {}
     post_processors: Dict[str, PostProcessor] = Field(default={}, exclude=True)
+
+    @field_validator("performances", mode="before")
+    @classmethod
+    def check_performances(cls, performances):
+        return {} if performances is None else performances
+
     #TODO: make wrapper for postprocessor for schema
 
     model_config = ConfigDict(
-- 
2.43.0


From f66bed7fcbca10df3e40d3833911a0a7b3571a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 56/72] fix: states of express systems can refer to rework
 processes

---
 prodsys/express/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prodsys/express/process.py b/prodsys/express/process.py
index fdefe4c..0c36456 100644
--- a/prodsys/express/process.py
+++ b/prodsys/express/process.py
@@ -369,5 +369,6 @@ PROCESS_UNION = Union[
     TransportProcess,
     RequiredCapabilityProcess,
     LinkTransportProcess,
+    ReworkProcess,
 ]
 from prodsys.express import resources, sink, source, node
-- 
2.43.0


From 811dacf66d553a75cb56b28e5c6626322dddd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 57/72] fix: links of express systems can be given as a
 dictionary of places

---
 prodsys/express/node.py              | 3 +++
 prodsys/express/process.py           | 4 +---
 prodsys/express/production_system.py | 5 ++++-
 prodsys/express/resources.py         | 6 ++++++
 prodsys/express/sink.py              | 3 +++
 prodsys/express/source.py            | 3 +++
 6 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/prodsys/express/node.py b/prodsys/express/node.py
index e5a13db..46b9795 100644
--- a/prodsys/express/node.py
+++ b/prodsys/express/node.py
@@ -39,6 +39,9 @@ class Node(core.ExpressObject):
         }
     )
 
+    def __hash__(self) -> int:
+        return hash(self.ID)
+
     def to_model(self) -> node_data.NodeData:
         """
         Function returns a NodeData object from the Node object.
diff --git a/prodsys/express/process.py b/prodsys/express/process.py
index 0c36456..033d740 100644
--- a/prodsys/express/process.py
+++ b/prodsys/express/process.py
@@ -282,9 +282,7 @@ class LinkTransportProcess(TransportProcess):
         if isinstance(self.links, list):
             self.links.append(link)
         else:
-            if not link in self.links:
-                self.links[link] = []
-            self.links[link[0]] = link[1]
+            self.links.setdefault(link[0], []).extend(link[1:])
 
     def set_links(
         self,
diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index d6400d1..a4761d4 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -95,7 +95,10 @@ class ProductionSystem(core.ExpressObject):
         for process_instance in processes:
             if not isinstance(process_instance, process.LinkTransportProcess):
                 continue
-            for link in process_instance.links:
+            links = process_instance.links
+            if isinstance(links, dict):
+                links = [[start, *targets] for start, targets in links.items()]
+            for link in links:
                 for link_element in link:
                     if isinstance(link_element, node.Node):
                         nodes.append(link_element)
diff --git a/prodsys/express/resources.py b/prodsys/express/resources.py
index 8e7c872..b53ca7a 100644
--- a/prodsys/express/resources.py
+++ b/prodsys/express/resources.py
@@ -109,6 +109,9 @@ class ProductionResource(Resource, core.ExpressObject):
     _input_queues: List[queue_data.QueueData] = Field(default_factory=list, init=False)
     _output_queues: List[queue_data.QueueData] = Field(default_factory=list, init=False)
 
+    def __hash__(self) -> int:
+        return hash(self.ID)
+
     def to_model(self) -> resource_data.ProductionResourceData:
         """
         Converts the `prodsys.express` object to a data object from `prodsys.models`.
@@ -186,6 +189,9 @@ class TransportResource(Resource, core.ExpressObject):
         if not self.location:
             self.location = [0.0, 0.0]
 
+    def __hash__(self) -> int:
+        return hash(self.ID)
+
     def to_model(self) -> resource_data.TransportResourceData:
         """
         Converts the `prodsys.express` object to a data object from `prodsys.models`.
diff --git a/prodsys/express/sink.py b/prodsys/express/sink.py
index 93ebf29..78ccb9a 100644
--- a/prodsys/express/sink.py
+++ b/prodsys/express/sink.py
@@ -64,6 +64,9 @@ class Sink(core.ExpressObject):
 
     _input_queues: List[queue_data.QueueData] = Field(default_factory=list, init=False)
 
+    def __hash__(self) -> int:
+        return hash(self.ID)
+
     def to_model(self) -> sink_data.SinkData:
         """
         Converts the `prodsys.express` object to a data object from `prodsys.models`.
diff --git a/prodsys/express/source.py b/prodsys/express/source.py
index a68cc94..cfb75aa 100644
--- a/prodsys/express/source.py
+++ b/prodsys/express/source.py
@@ -72,6 +72,9 @@ class Source(core.ExpressObject):
 
     _output_queues: List[queue_data.QueueData] = Field(default_factory=list, init=False)
 
+    def __hash__(self) -> int:
+        return hash(self.ID)
+
     def to_model(self) -> source_data.SourceData:
         """
         Converts the `prodsys.express` object to a data object from `prodsys.models`.
-- 
2.43.0


From 08f1ad8e5d15200319bc3ae0e84e34e35995ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 58/72] fix: a store of an auxiliary and of a resource is one
 store in express systems

---
 prodsys/express/production_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/express/production_system.py b/prodsys/express/production_system.py
index a4761d4..be0f5ca 100644
--- a/prodsys/express/production_system.py
+++ b/prodsys/express/production_system.py
@@ -180,7 +180,7 @@ class ProductionSystem(core.ExpressObject):
             resource_data=resource_data,
             source_data=source_data,
             sink_data=sink_data,
-            queue_data=queue_data + auxiliary_storage_data,
+            queue_data=remove_duplicate_items(queue_data + auxiliary_storage_data),
             auxiliary_data = auxiliary_data,
         )
 
-- 
2.43.0


From 3e54e662c1da106e2ac8b89ed1a5dd854a76a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 59/72] fix: episodes of the routing control environment can be
 started

---
 prodsys/control/routing_control_env.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index 1767897..e4742cd 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -123,7 +123,13 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
-        self.router = router.Router(self.runner.resource_factory, self.runner.sink_factory, agent_routing_heuristic)  
+        self.router = router.Router(
+            self.runner.resource_factory,
+            self.runner.sink_factory,
+            self.runner.auxiliary_factory,
+            agent_routing_heuristic,
+            self.runner.product_factory,
+        )
         
         sources = self.runner.source_factory.sources
         for source in sources:
-- 
2.43.0


From 1d6822c6ae50baf08307423da651df983cba095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 60/72] fix: control environments can be reset with the
 documented options

---
 prodsys/control/routing_control_env.py    | 2 +-
 prodsys/control/sequencing_control_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index e4742cd..eab7727 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -109,7 +109,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed: Optional[int]=None, options: Optional[dict]=None):
         """
         Reset env for new episode and run until first point of observation.
 
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index d900316..b7d9be7 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -113,7 +113,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         """
         pass
 
-    def reset(self, seed=None):
+    def reset(self, seed: Optional[int]=None, options: Optional[dict]=None):
         """
         Reset env for new episode and run until first point of observation.
 
-- 
2.43.0


From 8e900d831a0b2477dc6803ddee5d7e1bc190c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 61/72] fix: products in output queues can be observed

---
 prodsys/simulation/observer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index 7b1f854..c95d8a1 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List, TYPE_CHECKING
+from typing import List, Optional, TYPE_CHECKING
 
 from pydantic import BaseModel, ConfigDict
 
@@ -20,7 +20,7 @@ class ProcessObservation(BaseModel):
 class QueueObservation(BaseModel):
     product: str
     activity: str
-    process: str
+    process: Optional[str]
     next_resource: str
     waiting_since: float
 
@@ -46,7 +46,7 @@ def observe_input_queue(resource: resources.Resource, product_factory: product_f
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process.process_data.ID,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else None,
                 next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
@@ -63,8 +63,8 @@ def observe_output_queue(resource: resources.Resource, product_factory: product_
             production_process_info = QueueObservation(
                 product=product_data.ID,
                 activity="waiting",
-                process=product.next_prodution_process,
-                next_resource=product.current_locatable,
+                process=product.next_prodution_process.process_data.ID if product.next_prodution_process else None,
+                next_resource=product.current_locatable.data.ID,
                 waiting_since=product.product_info.event_time
             )
             queue_observation.append(production_process_info)
-- 
2.43.0


From 05780e0eacb693120bcd117598fe30e429f5021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 62/72] fix: the agent decides about the resources that
 products are routed to

---
 prodsys/simulation/router.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index d2475eb..e6b284b 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -191,7 +191,13 @@ class Router:
                 }
             )
 
-        self.routing_heuristic(production_requests)
+        agent_needed = self.routing_heuristic(production_requests)
+        if agent_needed:
+            # the simulation is interrupted at this instant, the agent sorts the requests meanwhile
+            yield env.timeout(0)
+            production_requests = self.get_requests_with_non_blocked_resources(
+                production_requests[:1]
+            )
         if not production_requests:
             return
         routed_production_request = production_requests.pop(0)
@@ -813,21 +819,25 @@ def shortest_queue_routing_heuristic(
 def agent_routing_heuristic(
     gym_env: routing_control_env.AbstractRoutingControlEnv,
     possible_requests: List[request.Request],
-):
+) -> bool:
     """
     Sorts the list of possible resources by an reinforcement learning agent
 
     Args:
         gym_env (gym_env.ProductionRoutingEnv): Environment for the reinforcement learning agent.
         possible_resources (List[resources.Resource]): A list of possible resources.
+
+    Returns:
+        bool: True if the simulation is interrupted for a decision of the agent.
     """
     if gym_env.interrupt_simulation_event.triggered:
         # Avoid that multiple requests trigger event multiple times -> delay them
         while possible_requests:
             possible_requests.pop()
-        return
+        return False
     gym_env.set_possible_requests(possible_requests)
     gym_env.interrupt_simulation_event.succeed()
+    return True
 
 
 ROUTING_HEURISTIC = {
-- 
2.43.0


From d100b2231dadb8a0c6cffb006d8a4c9e2a37f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 63/72] fix: the way of an auxiliary back to its store is
 routed again if it could not be routed

---
 prodsys/simulation/product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/product.py b/prodsys/simulation/product.py
index 27f136b..2deb39b 100644
--- a/prodsys/simulation/product.py
+++ b/prodsys/simulation/product.py
@@ -366,7 +366,7 @@ class Product(BaseModel):
                         )
                     )
                 )
-                if not auxiliary_request:
+                if not auxiliary_transport_request:
                     yield self.env.timeout(0)
                     continue
                 break
-- 
2.43.0


From c0469c0d904da48a64e0cecb7a268b63aab1a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 64/72] fix: episodes of control environments with the same
 seed are the same

---
 prodsys/control/routing_control_env.py    |  5 ++++-
 prodsys/control/sequencing_control_env.py |  5 ++---
 prodsys/simulation/sim.py                 | 10 ++++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/prodsys/control/routing_control_env.py b/prodsys/control/routing_control_env.py
index eab7727..c1bbbe2 100644
--- a/prodsys/control/routing_control_env.py
+++ b/prodsys/control/routing_control_env.py
@@ -120,6 +120,7 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         super().reset(seed=seed)
 
         self.runner.initialize_simulation()
+        self.runner.env.seed = int(self.np_random.integers(2**32))
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.chose_resource_event = events.Event(self.runner.env)
         agent_routing_heuristic = partial(router.agent_routing_heuristic, self)
@@ -186,7 +187,9 @@ class AbstractRoutingControlEnv(gym.Env, ABC):
         self.chosen_resource = self.runner.resource_factory.resources[resource_index]
         if not self.chosen_resource.data.ID in [r.resource.data.ID for r in self.possible_requests]:
             invalid_action = True
-            self.chosen_resource = np.random.choice(self.possible_requests).resource
+            self.chosen_resource = self.possible_requests[
+                self.np_random.integers(len(self.possible_requests))
+            ].resource
         else:
             invalid_action = False
 
diff --git a/prodsys/control/sequencing_control_env.py b/prodsys/control/sequencing_control_env.py
index b7d9be7..6945b1a 100644
--- a/prodsys/control/sequencing_control_env.py
+++ b/prodsys/control/sequencing_control_env.py
@@ -124,6 +124,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         super().reset(seed=seed)
 
         self.runner.initialize_simulation()
+        self.runner.env.seed = int(self.np_random.integers(2**32))
         self.interrupt_simulation_event = events.Event(self.runner.env)
         self.resource_controller = self.runner.resource_factory.get_resource(
             self.resource_id
@@ -161,9 +162,7 @@ class AbstractSequencingControlEnv(gym.Env, ABC):
         queue_index = np.argmax(action)
 
         if queue_index >= len(self.resource_controller.requests):
-            queue_index = np.random.choice(
-                [i for i in range(len(self.resource_controller.requests))]
-            )
+            queue_index = self.np_random.integers(len(self.resource_controller.requests))
             to_process = self.resource_controller.requests.pop(queue_index)
             invalid_action = True
         else:
diff --git a/prodsys/simulation/sim.py b/prodsys/simulation/sim.py
index 6292ed7..a21da8a 100644
--- a/prodsys/simulation/sim.py
+++ b/prodsys/simulation/sim.py
@@ -62,6 +62,7 @@ class Environment(core.Environment):
         self.seed: int = seed
         self.pbar: Any = None
         self.last_update = 0
+        self.random_state: Any = None
 
     def run(self, time_range: float):
         """
@@ -81,12 +82,17 @@ class Environment(core.Environment):
 
     def run_until(self, until: events.Event):
         """
-        Runs the simulation until a given event.
+        Runs the simulation until a given event. Consecutive calls continue the random numbers of the simulation, that start with its seed.
 
         Args:
             until (events.Event): The event to run the simulation until.
         """
-        super().run(until=until)
+        with temp_seed(self.seed):
+            if self.random_state:
+                np.random.set_state(self.random_state[0])
+                random.setstate(self.random_state[1])
+            super().run(until=until)
+            self.random_state = (np.random.get_state(), random.getstate())
 
     def request_process_of_resource(self, request: request.Request) -> None:
         """
-- 
2.43.0


From fef0fe6241e075cc7b3cac14fdc59a288389a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:06 +0000
Subject: [PATCH 65/72] fix: transport resources, that have no queues, can be
 observed

---
 prodsys/simulation/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index c95d8a1..2d9613e 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -39,7 +39,7 @@ def observe_processes(resource: resources.Resource) -> List[ProcessObservation]:
 
 def observe_input_queue(resource: resources.Resource, product_factory: product_factory.ProductFactory) -> List[QueueObservation]:
     queue_observation = []
-    for queue in resource.input_queues:
+    for queue in getattr(resource, "input_queues", []):
         for product_data in queue.items:
             product = product_factory.get_product(product_data.ID)
 
@@ -56,7 +56,7 @@ def observe_input_queue(resource: resources.Resource, product_factory: product_f
 
 def observe_output_queue(resource: resources.Resource, product_factory: product_factory.ProductFactory) -> List[QueueObservation]:
     queue_observation = []
-    for queue in resource.output_queues:
+    for queue in getattr(resource, "output_queues", []):
         for product_data in queue.items:
             product = product_factory.get_product(product_data.ID)
 
-- 
2.43.0


From ff6e570af17ec9a1ae14421ff0012bb80c43aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:19 +0000
Subject: [PATCH 66/72] fix: processes that did not start yet are not observed
 as ended or running

---
 prodsys/simulation/observer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prodsys/simulation/observer.py b/prodsys/simulation/observer.py
index 2d9613e..524bdbb 100644
--- a/prodsys/simulation/observer.py
+++ b/prodsys/simulation/observer.py
@@ -27,7 +27,10 @@ class QueueObservation(BaseModel):
 def observe_processes(resource: resources.Resource) -> List[ProcessObservation]:
     process_observations = []
     for production_state in resource.production_states:
-        if production_state.process:
+        if production_state.process and production_state.state_info._activity not in (
+            None,
+            state.StateEnum.end_state,
+        ):
             observation = ProcessObservation(
                 process=production_state.state_info.ID,
                 product=production_state.state_info._product_ID,
-- 
2.43.0


From 455f6e30bf9cb152bf83cbcad811c751e787202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 67/72] fix: LIFO control policy keeps the latest request first
 when it is applied repeatedly

---
 prodsys/simulation/control.py | 8 +++++---
 prodsys/simulation/request.py | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 9c4d6b9..8b9208d 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -52,6 +52,7 @@ class Controller(ABC, BaseModel):
     requests: List[request_module.Request] = Field(init=False, default_factory=list)
     running_processes: List[events.Process] = []
     reserved_requests_count: int = 0
+    requests_count: int = 0
 
     @field_validator("requested", mode="before")
     def init_requested(cls, v, info: ValidationInfo):
@@ -71,6 +72,8 @@ class Controller(ABC, BaseModel):
         Args:
             process_request (Request): The request to be processed.
         """
+        self.requests_count += 1
+        process_request.arrival_number = self.requests_count
         self.requests.append(process_request)
         logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Got requested by {process_request.product.product_data.ID}"})
         if not self.requested.triggered:
@@ -973,13 +976,12 @@ def FIFO_control_policy(requests: List[request_module.Request]) -> None:
 
 def LIFO_control_policy(requests: List[request_module.Request]) -> None:
     """
-    Sort the requests according to the LIFO principle (the latest request moves to the front, the others keep their order of arrival).
+    Sort the requests according to the LIFO principle (latest request first).
 
     Args:
         requests (List[Request]): The list of requests.
     """
-    if requests:
-        requests.insert(0, requests.pop())
+    requests.sort(key=lambda x: x.arrival_number, reverse=True)
 
 
 def SPT_control_policy(requests: List[request_module.Request]) -> None:
diff --git a/prodsys/simulation/request.py b/prodsys/simulation/request.py
index 52fe139..e9058da 100644
--- a/prodsys/simulation/request.py
+++ b/prodsys/simulation/request.py
@@ -32,6 +32,7 @@ class Request:
         self.process = process
         self.product = product
         self.resource = resource
+        self.arrival_number = 0  # position in the order in which the requests arrived at the controller
 
     def set_process(self, process: PROCESS_UNION):
         """
-- 
2.43.0


From 57ea31faa117d21ec869175f23400f1fd84240ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 68/72] fix: a full store does not keep its products from the
 machine they wait for

---
 prodsys/simulation/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/router.py b/prodsys/simulation/router.py
index e6b284b..186ba19 100644
--- a/prodsys/simulation/router.py
+++ b/prodsys/simulation/router.py
@@ -727,7 +727,7 @@ class Router:
             if isinstance(request.resource, resources.TransportResource)
             or (
                 isinstance(request.resource, resources.ProductionResource)
-                and not any(q.full for q in request.resource.input_queues)
+                and not any(q.full for q in request.resource.input_queues if not isinstance(q, store.Store))
             )
             or (isinstance(request.resource, store.Store) and not request.resource.full)
         ]
-- 
2.43.0


From 44b91bf961f9c35f78b9c5148cd8234e0b60af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:40 +0000
Subject: [PATCH 69/72] fix: the first drive of a vehicle leads to the link
 network and its link is only valid for it

---
 prodsys/simulation/route_finder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prodsys/simulation/route_finder.py b/prodsys/simulation/route_finder.py
index f0295b9..97691f7 100644
--- a/prodsys/simulation/route_finder.py
+++ b/prodsys/simulation/route_finder.py
@@ -59,8 +59,9 @@ class RouteFinder:
         origin, target = self.get_route_origin_and_target_locatables(
             request=request, route_to_origin=find_route_to_origin
         )
+        links = list(process.links)  # the link for a first drive is only valid for this route
         edges = self.process_links_to_graph_edges(
-            links=process.links,
+            links=links,
             origin=origin,
             target=target,
             empty_transport=find_route_to_origin,
@@ -75,10 +76,7 @@ class RouteFinder:
         graph_node_path = self.find_graphnode_path(origin_node, target_node, graph)
         if not graph_node_path:
             return []
-        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=process.links)
-        from prodsys.simulation.resources import TransportResource
-        if isinstance(origin, TransportResource):
-            route = route[1:]
+        route = self.convert_node_path_to_locatable_route(graph_node_path=graph_node_path, links=links)
         return route
 
     def process_links_to_graph_edges(self, links: List[List[Locatable]], origin: Locatable, target: Locatable, empty_transport: bool) -> List[Tuple[GraphNode, GraphNode, int]]:
-- 
2.43.0


From 62555776752d3d3abcdd30a7bb9afc4d5c063957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 70/72] fix: a resumed transport is not counted as another
 departure in the WIP of a resource

---
 prodsys/util/post_processing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prodsys/util/post_processing.py b/prodsys/util/post_processing.py
index 420d42d..caaacad 100644
--- a/prodsys/util/post_processing.py
+++ b/prodsys/util/post_processing.py
@@ -116,6 +116,7 @@ class PostProcessor:
             -Product_type: Type of the product
             -State_type: Type of the state according to the StateTypeEnum
             -State_sorting_Index: Index to sort the states in the correct order
+            -Resumed: Whether the event is the start that is logged when an interrupted state is resumed
             
         Returns:
             pd.DataFrame: Data frame with the simulation results and the added columns.
@@ -133,6 +134,10 @@ class PostProcessor:
             "State_type",
         ] = "Process State"
 
+        df["Resumed"] = (df["Activity"] == "start state") & (
+            df.groupby(by=["Resource", "State", "Product"])["Activity"].shift(1).fillna("") == "end interrupt"
+        )
+
         # TODO: remove this, if processbreakdown is added
         df = df.loc[df["State Type"] != state.StateTypeEnum.process_breakdown]
 
@@ -1043,7 +1048,7 @@ class PostProcessor:
         df.loc[created_condition, "wip_increment"] = 1
         df.loc[finished_condition, "wip_increment"] = -1
         df.loc[created_condition | finished_condition, "wip_resource"] = df.loc[created_condition | finished_condition, "Resource"]
-        move_away_condition = (df["Empty Transport"] == False) & (df["Activity"] == "start state")
+        move_away_condition = (df["Empty Transport"] == False) & (df["Activity"] == "start state") & ~df["Resumed"]
         move_in_condition = (df["Empty Transport"] == False) & (df["Activity"] == "end state")
 
         df.loc[move_away_condition, "wip_increment"] = -1
@@ -1126,7 +1131,7 @@ class PostProcessor:
         df.loc[CREATED_CONDITION, "WIP_Increment"] = 1
         df.loc[FINISHED_CONDITION, "WIP_Increment"] = -1
         df.loc[CREATED_CONDITION | FINISHED_CONDITION, "WIP_resource"] = df.loc[CREATED_CONDITION | FINISHED_CONDITION, "Resource"]
-        MOVE_AWAY_CONDITION = (df["Empty Transport"] == False) & (df["Activity"] == "start state")
+        MOVE_AWAY_CONDITION = (df["Empty Transport"] == False) & (df["Activity"] == "start state") & ~df["Resumed"]
         MOVE_IN_CONDITION = (df["Empty Transport"] == False) & (df["Activity"] == "end state")
 
         df.loc[MOVE_AWAY_CONDITION, "WIP_Increment"] = -1
-- 
2.43.0


From fac5af16052b7ec80b2d5b463a084ab0518e739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 71/72] fix: a drawn batch time of zero is used and not drawn
 again for every product

---
 prodsys/simulation/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodsys/simulation/state.py b/prodsys/simulation/state.py
index c81bd72..c38ede1 100644
--- a/prodsys/simulation/state.py
+++ b/prodsys/simulation/state.py
@@ -322,7 +322,7 @@ class ProductionState(State):
         self.active = events.Event(self.env).succeed()
 
     def process_state(self, time: Optional[float] = None) -> Generator:
-        if not time:
+        if time is None:
             time = self.time_model.get_next_time()
         self.done_in = time
         self.resource.consider_battery_usage(self.done_in)
-- 
2.43.0


From f26b37506970b04211be32d266665f8558f94654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 72/72] fix: a finished process does not release the state
 another product has taken

---
 prodsys/simulation/control.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prodsys/simulation/control.py b/prodsys/simulation/control.py
index 8b9208d..f0379f1 100644
--- a/prodsys/simulation/control.py
+++ b/prodsys/simulation/control.py
@@ -295,7 +295,6 @@ class ProductionController(Controller):
             production_state: state.State = yield from self.wait_for_free_process(resource, process)
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Starting process for {product.product_data.ID}"})
             yield from self.run_process(production_state, product, process)
-            production_state.process = None
 
             product_put_events = self.put_product_to_output_queue(resource, [product])
             logger.debug({"ID": "controller", "sim_time": self.env.now, "resource": self.resource.data.ID, "event": f"Waiting to put product {product.product_data.ID} to queue"})
-- 
2.43.0

