inf = float('inf')
