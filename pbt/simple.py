"""A small random network of clients for the checks of client protocols and services."""
from .net import *
from .gen import *

def net_strategy(n_clients=(2, 4), switches=(1, 3)):
  hop = st.fixed_dictionaries({"kind": st.sampled_from(["plain", "raw", "cost"]), "d1": delays(2), "d2": delays(2)})
  return st.fixed_dictionaries({
    "hops": st.lists(hop, min_size=switches[0] - 1, max_size=switches[1] - 1),
    "eps": st.lists(st.tuples(hop, st.integers(0, 3)).map(list), min_size=n_clients[0], max_size=n_clients[1]),
  })

class Net:
  """A chain of switches with clients; `infra` switch 0 is where services live."""
  async def start(self, spec, addresses=True):
    self.switches = [Switch()]
    for h in spec["hops"]:
      self.switches.append(Switch())
      a, b = make_link(h["kind"], 3, h["d1"], h["d2"])
      await self.switches[-2].add_link(a)
      await self.switches[-1].add_link(b)
    self.clients = []
    for i, (h, sw) in enumerate(spec["eps"]):
      a, b = make_link(h["kind"], 2, h["d1"], h["d2"])
      await self.switches[sw % len(self.switches)].add_link(a)
      c = Client(b)
      c.start()
      self.clients.append(c)
      if addresses: await c.set_address(1000 + i)
    return self
