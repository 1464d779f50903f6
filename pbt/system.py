"""The task system on a simulated network: discovery, task manager, scripted task hosts, clients."""
from .simple import *
from .core import Violation
import contextlib, gc, io
import streamtasks.system.task as task_module
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.services.constants import NetworkTopics, NetworkAddressNames
from streamtasks.client.discovery import wait_for_topic_signal
from streamtasks.system.task import Task, TaskHost, TaskManager, TaskManagerClient, TaskStatus
from streamtasks.system.configurators import IOTypes

class ScriptTask(Task):
  """Behaves as its configuration says and records what happens to it."""
  def __init__(self, client, host, config, topic_space_id):
    super().__init__(client)
    self.host, self.config, self.space = host, config, topic_space_id
    self.n = config["n"]
  async def setup(self):
    self.host.record(self.n, "setup", self.config)
    if self.config.get("setup_delay"): await asyncio.sleep(self.config["setup_delay"])
    if self.config.get("setup_fail") is not None: raise ValueError(self.config["setup_fail"])
    return dict(self.config.get("metadata", {}))
  async def run(self):
    self.host.record(self.n, "run", None)
    try:
      self.client.start()
      await self.work()
      self.host.record(self.n, "done", None)
    except asyncio.CancelledError:
      self.host.record(self.n, "cancelled", None)
      if self.config.get("cleanup"): await asyncio.sleep(self.config["cleanup"])
      raise
    finally: self.host.record(self.n, "end", None)
  async def work(self):
    if self.config.get("dur") is None: await asyncio.Future()
    elif self.config["dur"] >= 0: await asyncio.sleep(self.config["dur"])
    if self.config.get("fail") is not None: raise ValueError(self.config["fail"])

class ScriptHost(TaskHost):
  task_type = ScriptTask
  def __init__(self, *a, **kw):
    super().__init__(*a, **kw)
    self.events = []
    self.created = []
  def record(self, n, what, data): self.events.append((n, what, data))
  def seen(self, n): return [what for m, what, _ in self.events if m == n]
  @property
  def metadata(self): return {"name": type(self).__name__, "cfg:x": 5}
  async def create_task(self, config, topic_space_id):
    if config.get("create_fail") is not None: raise ValueError(config["create_fail"])
    task = self.task_type(await self.create_client(topic_space_id), self, config, topic_space_id)
    self.created.append(task)
    return task

def host_class(name, base=ScriptHost): return type(name, (base,), {})

class System(Net):
  async def start_system(self, spec, hosts=2, host_base=ScriptHost, tm=True):
    await self.start(spec, addresses=False)
    self.run_tasks = []
    self.discovery = DiscoveryWorker()
    await self.attach(self.discovery, 0)
    for c in self.clients:
      await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
      await c.request_address()
    if tm:
      self.tm = TaskManager()
      await self.attach(self.tm, 0)
      for c in self.clients: await asyncio.wait_for(wait_name(c, NetworkAddressNames.TASK_MANAGER), 1000)
    self.hosts, self.host_tasks = [], []
    for i in range(hosts):
      h = host_class(f"Host{i}", host_base)()
      self.hosts.append(h)
      self.host_tasks.append(await self.attach(h, i + 1))
    for h in self.hosts: await asyncio.wait_for(h.ready.wait(), 1000)
    self.tmc = [TaskManagerClient(c) for c in self.clients]
    return self
  async def attach(self, worker, switch):
    await self.switches[switch % len(self.switches)].add_link(await worker.create_link())
    await settle(20)               # the new node knows the network
    t = asyncio.create_task(worker.run())
    self.run_tasks.append((worker, t))
    return t

async def wait_name(client, name):
  from streamtasks.client.discovery import wait_for_address_name
  return await wait_for_address_name(client, name)

@contextlib.contextmanager
def quiet():
  """The code under test prints tracebacks of failing tasks and collects garbage after each task."""
  real = gc.collect
  gc.collect = lambda *a: 0
  try:
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): yield
  finally: gc.collect = real
