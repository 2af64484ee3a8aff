// Nothing to do: the simulator owns the allocator.
