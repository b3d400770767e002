from rules import sleep, timer, alist, heap, driver, clock, interval, timeout, std, queue, wheel, dqueue, locks, autos, api, memory, progress
